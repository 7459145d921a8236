"""W01 (and the receiving half of W05): commands on control channels."""
from rules.ctx import *
from rules.wire import header_fields

def tables(chk):
    """{role: [(command code, handler name)]} as handed to rmc_conn_tcp_read by the read entry points"""
    M = chk.M; out = {}
    for role, fn, T in (("pub", "rmc_pub_read", "rmc_pub_context"), ("sub", "rmc_sub_read", "rmc_sub_context")):
        op = {"rmc_conn_tcp_read": opq([0]), "rmc_conn_process_accept": opq([anyerr]), "rmc_pub_close_connection": opq([0]), "rmc_sub_close_connection": opq([0]),
              "sub_process_received_packets": opq([None]), "process_multicast_read": opq([anyerr])}
        ip = chk.interp(field_inv=inv(), opaque=op); st = State()
        ctx = fresh_obj("ctx", T); idx = V(16, S(new_sym("s_ind", 0, 0x7FFB)))
        args, by = chk.arg_syms(fn, ctx=V(64, ctx), s_ind=idx)
        seen = None
        for k, s, x in chk.run(ip, fn, args, st):
            for c in calls(s, "rmc_conn_tcp_read"):
                e = s.norm(c.args[3].e); b = keybase(e.t) if e.t else None
                if b is not None and SYMS[b].kind == "global": seen = SYMS[b].name[1:]
        out[role] = read_table(M, seen) if seen else None
        out[role + "_name"] = seen
    return out
def read_table(M, name):
    g = M.globals.get(name)
    sz = M.size("rmc_conn_command_dispatch"); co = M.member("rmc_conn_command_dispatch", "command")[0]; do = M.member("rmc_conn_command_dispatch", "dispatch")[0]
    cells = {o: v for o, n, v in g["init"]}
    out = []
    for i in range(g["size"] // sz):
        c = cells.get(i * sz + co); d = cells.get(i * sz + do)
        if d is None or d["k"] != "f": break
        out.append((int(c["v"]) & 255 if c else 0, d["n"]))
    return out

EFFECTS = ("rmc_pub_packet_ack", "pub_packet_ack", "sub_packet_received", "rmc_sub_packet_received", "sub_process_received_packets")
def effects(st, since=0):
    """events by which a handler acts on anything but its own locals"""
    out = []
    for e in st.events():
        if e.kind in ("opq", "cb", "alloc", "free", "sys", "link", "unlink", "nodefree") or (e.kind == "call" and e.name in EFFECTS): 
            if e.kind == "opq" and e.name == "sub_packet_is_duplicate": continue
            out.append(e)
        elif e.kind == "store":
            b = keybase(st.norm(e.args[0].e).t)
            if b is not None and SYMS[b].kind in ("base", "ptr"): out.append(e)
    return out

class Handler:
    """a command handler run on a connection with an arbitrary pending input"""
    def __init__(s, chk, role, name, opaque, **kw):
        M = chk.M; s.chk = chk; s.name = name
        s.ip = chk.interp(field_inv=inv(), opaque=opaque, **kw); s.st = State()
        s.conn = fresh_obj("conn", "rmc_connection"); s.ctx = fresh_obj("ctx", "rmc_%s_context" % role)
        s.rb = s.conn + M.member("rmc_connection", "read_buf")[0]
        s.u0, s.p0 = models.cb_get(s.ip, s.st, s.rb)
        s.idx = val(s.ip, s.st, s.conn, "rmc_connection", "connection_index").e
        if role == "sub":
            sz = val(s.ip, s.st, s.ctx, "rmc_sub_context", "conn_vec.size").e
            s.st.assume(LT(s.idx, sz))
        s.st.assume(GE(s.u0, 1))
    def stream(s, st, off, size, mem=None):
        """unsigned value of the stream bytes [off, off+size) of the pending input at entry"""
        base = S(models.stream_sym(st, s.rb))
        return s.ip.view(st, s.ip.load(st, st.norm(base + s.p0 + off), size, mem={}, peek=True), "u")
    def run(s):
        return s.chk.run(s.ip, s.name, [V(64, s.conn), V(64, s.ctx)], s.st)

def need_len(H, M, kind):
    """(fixed length incl. command byte, state -> Lin total length)"""
    if kind == "ack": return 1 + M.size("cmd_ack_interval"), lambda st: C(1 + M.size("cmd_ack_interval"))
    if kind == "ctl":
        n = 1 + M.size("cmd_control_message"); o = 1 + M.member("cmd_control_message", "payload_len")[0]
        return n, lambda st: H.stream(st, o, 2) + n
    n = 1 + M.size(HDR); o = 1 + M.member(HDR, "payload_len")[0]
    return n, lambda st: H.stream(st, o, 2) + n

OPAQUE = {"rmc_pub_packet_ack": opq([0]), "pub_packet_ack": opq([None]), "sub_packet_is_duplicate": opq([0, 1]),
          "sub_packet_received": opq([1]), "rmc_sub_packet_received": opq([0, 22]), "sub_process_received_packets": opq([None])}
KIND = {("pub", 2): "ack", ("pub", 3): "ctl", ("sub", 1): "packet"}

def handlers(chk, tabs):
    for role in ("pub", "sub"):
        for code, h in tabs[role] or []:
            if (role, code) in KIND: yield role, code, h, KIND[(role, code)]

def W01(chk):
    M = chk.M
    chk.need("rmc_pub_read", "rmc_sub_read", "rmc_conn_process_tcp_read", "rmc_conn_tcp_read")
    chk.assume += [ASSUME_CB, ASSUME_RING, "running out of memory ends the process, as the library intends"]
    tabs = tables(chk)
    for role in ("pub", "sub"):
        if not tabs[role]:
            chk.unsure("W01.table", "rmc_%s_read" % role, "dispatch table", "no constant dispatch table is handed to rmc_conn_tcp_read"); continue
        want = {"pub": [2, 3], "sub": [1]}[role]
        chk.fact("W01.table", State(), sorted(c for c, _ in tabs[role]) == want, fn="rmc_%s_read" % role, what="the commands accepted from the peer are %s, expected %s" % (sorted(c for c, _ in tabs[role]), want), key="table")
    for role, code, h, kind in handlers(chk, tabs):
        H = Handler(chk, role, h, OPAQUE)
        fixed, need = need_len(H, M, kind)
        for k, s, x in H.run():
            if k == "fault": chk.fact("W01.fault", s, False, what="handling a command can fault: %s" % x, key="fault"); continue
            if k == "abort": chk.fact("W01.stops", s, out_of_memory(H.ip, s), fn=h, what="handling a command stops the process although memory is available", key="stops"); continue
            if k not in ("ret",): continue
            for s1, r in evals(s, lambda q: H.ip.view(q, x, "s")):
                for s2, agn in splits(s1, EQ(r, 11)):
                    u1, p1 = models.cb_get(H.ip, s2, H.rb)
                    if agn:
                        chk.ob("W01.wait.untouched", s2, [EQ(u1, H.u0), EQ(p1, H.p0)], fn=h, what="an incomplete command has bytes consumed", key="wait")
                        ef = effects(s2)
                        chk.fact("W01.wait.no-effect", s2, not ef, fn=h, line=ef[0].line if ef else None, what="an incomplete command already takes effect", key="wait-effect")
                        for s3, part in splits(s2, LT(H.u0, fixed)):
                            if part: continue
                            for s4, n in evals(s3, need):
                                chk.ob("W01.wait.only-incomplete", s4, LT(H.u0, n), fn=h, what="a complete command is not handled", key="complete")
                        continue
                    for s3, z in splits(s2, EQ(r, 0)):
                        if not z:
                            u, p = models.cb_get(H.ip, s3, H.rb)
                            ef = effects(s3)
                            chk.ob("W01.error.untouched", s3, EQ(u, H.u0), fn=h, what="a command is refused after part of it was consumed", key="error")
                            continue
                        chk.ob("W01.done.complete", s3, GE(H.u0, fixed), fn=h, what="a command is handled before its header has arrived", key="done")
                        for s4, n in evals(s3, need):
                            chk.ob("W01.done.complete", s4, GE(H.u0, n), fn=h, what="a command is handled before all of its bytes have arrived", key="done")
                            for s5, full in splits(s4, GE(H.u0, n)):
                                if full: chk.ob("W01.done.exact", s5, [EQ(p1, H.p0 + n), EQ(u1, H.u0 - n)], fn=h, what="a command does not consume exactly its own bytes", key="exact")
        content(chk, "W01", role, h, kind)
    for role in ("pub", "sub"):
        if tabs[role]: dispatch(chk, role, tabs[role], tabs[role + "_name"])
    passed_on(chk)

def content(chk, R, role, h, kind):
    """what a complete command's handler acts on is exactly the command's own bytes"""
    M = chk.M
    H = Handler(chk, role, h, OPAQUE)
    fixed, need = need_len(H, M, kind)
    outs = H.run(); usesdup = any(calls(s, "sub_packet_is_duplicate") for k, s, x in outs)
    nack = 0
    for k, s, x in outs:
        if kind == "ack" and k in ("ret", "back"):
            for e in calls(s, "rmc_pub_packet_ack"):
                nack += 1
                a, b = (H.stream(s, 1 + M.member("cmd_ack_interval", n)[0], 8) for n in ("first_pid", "last_pid"))
                chk.ob(R + ".ack.range", s, [GE(H.ip.view(s, e.args[2], "u"), a), LE(H.ip.view(s, e.args[2], "u"), b)], fn=e.fn, line=e.line, what="a packet outside the interval is acknowledged", key="ack-range")
                chk.ob(R + ".ack.who", s, [EQ(e.args[0].e, H.ctx), EQ(e.args[1].e, H.conn)], fn=e.fn, line=e.line, what="the acknowledgement is credited to another subscriber", key="ack-who")
        if k != "ret": continue
        if kind == "ctl":
            for e in cbs(s, "subscriber_control_message_cb"):
                for s1, n in evals(s, lambda q: H.stream(q, 1 + M.member("cmd_control_message", "payload_len")[0], 2)):
                    chk.ob(R + ".ctl.args", s1, [EQ(e.args[0].e, H.ctx), EQ(H.ip.view(s1, e.args[5], "u"), n), EQ(H.ip.view(s1, e.args[1], "u"), at(H.ip, s1, e, H.conn, "rmc_connection", "remote_address")),
                        EQ(H.ip.view(s1, e.args[2], "u"), at(H.ip, s1, e, H.conn, "rmc_connection", "remote_port")), EQ(H.ip.view(s1, e.args[3], "u"), at(H.ip, s1, e, H.conn, "rmc_connection", "node_id"))],
                        fn=e.fn, line=e.line, what="the control message callback gets other arguments than the sender and length of the message", key="ctl-args")
                    for s2, some in splits(s1, GE(n, 1)):
                        if some: filled(chk, R + ".ctl.payload", H, s2, e, e.args[4].e, fixed, n, "the control message callback gets other bytes than the message's payload")
            for s1, z in ret0(H, s, x):
                cb = at_entry(H, "subscriber_control_message_cb")
                n = len(cbs(s1, "subscriber_control_message_cb"))
                for s2, set_ in splits(s1, NE(cb, 0)):
                    chk.fact(R + ".ctl.once", s2, n == (1 if set_ else 0), fn=h, what="a complete control message does not invoke the callback exactly once", key="ctl-once")
        if kind == "packet":
            rec = [e for e in calls(s, "sub_packet_received")] + calls(s, "rmc_sub_packet_received")
            for e in rec:
                f = {n: H.stream(s, 1 + M.member(HDR, n)[0], M.member(HDR, n)[1]["size"]) for n in ("pid", "payload_len")}
                # rmc_sub_packet_received has the context and index in front
                a = 0 if e.name == "sub_packet_received" else 1
                chk.ob(R + ".packet.args", s, [EQ(H.ip.view(s, e.args[1 + a], "u"), f["pid"]), EQ(H.ip.view(s, e.args[3 + a], "u"), f["payload_len"])], fn=e.fn, line=e.line, what="a resent packet is recorded with another id or length than it carries", key="packet-args")
                if a == 0:
                    po = M.member("rmc_sub_context", "publishers")[0]
                    pb = at(H.ip, s, e, H.ctx, "rmc_sub_context", "publishers")
                    chk.ob(R + ".packet.pub", s, EQ(e.args[0].e, pb + H.idx * M.size("sub_publisher")), fn=e.fn, line=e.line, what="a resent packet is recorded for another publisher than the one it came from", key="packet-pub")
                for s2, some in splits(s, GE(f["payload_len"], 1)):
                    if some: filled(chk, R + ".packet.payload", H, s2, e, e.args[2 + a].e, fixed, f["payload_len"], "a resent packet is recorded with other bytes than its payload")
            for s1, z in ret0(H, s, x):
                d = calls(s1, "sub_packet_is_duplicate")
                if not d and usesdup:
                    chk.fact(R + ".packet.once", s1, len(rec) == 1, fn=h, what="a complete resent packet is dropped without having been received before", key="packet-once"); continue
                if not d:
                    chk.unsure(R + ".packet.once", h, "duplicate check", "sub_packet_is_duplicate is not used"); continue
                for s2, dup in splits(s1, NE(d[-1].ret.e, 0)):
                    chk.fact(R + ".packet.once", s2, len(rec) == (0 if dup else 1), fn=h, what="a complete resent packet is not recorded exactly once (or a duplicate is recorded)", key="packet-once")
    if kind == "ack": chk.fact(R + ".ack.present", State(), nack > 0, fn=h, what="an acknowledgement never acknowledges anything", key="ack-present")
def at_entry(H, field):
    return val(H.ip, H.st.fork(), H.ctx, "rmc_pub_context", field).e
def ret0(H, s, x):
    for s1, r in evals(s, lambda q: H.ip.view(q, x, "s")):
        for s2, z in splits(s1, EQ(r, 0)):
            if z: yield s2, z
def filled(chk, rule, H, st, ev, buf, off, n, what):
    """buf[0..n) holds stream bytes off.. at the event"""
    base = S(models.stream_sym(st, H.rb)) + H.p0 + off
    # copies into the buffer, in order, each from where the stream continues
    todo = [(st, C(0), 0)]; W = []
    for e in st.events():
        if e is ev: break
        if e.kind == "cb_read" and e.x.get("ok"): W.append((e, st.norm(e.x["tgt"]), st.norm(S(models.stream_sym(st, e.x["cb"])) + e.x["pos"]), st.norm(e.x["len"])))
        elif e.kind == "memcpy": W.append((e, st.norm(e.args[0].e), st.norm(e.args[1].e), st.norm(e.args[2].e)))
    done = False
    for s in [st]:
        cur = C(0); hit = None
        for e, d, src, ln in W:
            if s.entails(EQ(d, s.norm(buf))): hit = (e, src, ln)
        if hit is None:
            chk.fact(rule, s, False, fn=ev.fn, line=ev.line, what=what, key="bytes", deps=[s.norm(buf)]) if not any(e.kind == "loop" for e in s.events()) else chk.unsure(rule, ev.fn, "bytes", "copied inside a loop")
        else:
            b = keybase(hit[1].t)
            if b in models.STREAM or b == base.t[0][0] or True:
                chk.ob(rule, s, [EQ(hit[1], base), GE(hit[2], n)], fn=ev.fn, line=ev.line, what=what, key="bytes")

def dispatch(chk, role, tab, gname):
    """rmc_conn_process_tcp_read over the table: stream order, whole buffer, unknown commands"""
    M = chk.M; fn = "rmc_conn_process_tcp_read"
    rbo = M.member("rmc_connection", "read_buf")[0]
    def handler(name):
        def f(ip, st, I, nm, args):
            out = []
            cb = st.norm(args[0].e + rbo); u, p = models.cb_get(ip, st, cb)
            for kind in ("ok", "again", "err"):
                s = st.fork()
                r = VC(32, 0) if kind == "ok" else (VC(32, 11) if kind == "again" else anyerr(ip, s))
                if kind == "err" and not s.try_assume([NE(r.e, 11)]): continue
                s.event("opq", nm, args, r, x=dict(handler=True, kind=kind, u=u, p=p))
                if kind == "ok":
                    k = S(new_sym("consumed#%d" % uniq(), 1, 70000))
                    if not s.try_assume([LE(k, u)]): continue
                    ip.gset(s, cb, "in_use", s.norm(u - k)); ip.gset(s, cb, "pos", s.norm(p + k))
                out.append(("ret", s, r))
            return out
        return f
    ip = chk.interp(field_inv=inv(), opaque={h: handler(h) for _, h in tab})
    st = State()
    cv = fresh_obj("conn_vec", "rmc_connection_vector"); idx = S(new_sym("s_ind", 0, 0x7FFB))
    conns = val(ip, st, cv, "rmc_connection_vector", "connections").e
    size = val(ip, st, cv, "rmc_connection_vector", "size").e
    st.assume(LT(idx, size))
    conn = st.norm(conns + idx * M.size("rmc_connection"))
    mode = val(ip, st, conn, "rmc_connection", "mode").e
    st.assume(EQ(mode, CONNECTED))
    rb = st.norm(conn + rbo)
    u0, p0 = models.cb_get(ip, st, rb); st.assume(GE(u0, 1))
    ud = V(64, S(ptr_sym("user_data", False, None, "base")))
    args, by = chk.arg_syms(fn, conn_vec=V(64, cv), s_ind=V(16, idx), dispatch_table=V(64, S(IP.glob_sym(gname))))
    args[-1] = ud
    def byte(s, p): return ip.view(s, ip.load(s, s.norm(S(models.stream_sym(s, rb)) + p), 1, mem={}, peek=True), "u")
    codes = dict((h, c) for c, h in tab)
    n = 0
    checked = set()
    for k, s, x in chk.run(ip, fn, args, st):
        hs = [e for e in s.events() if e.kind == "opq" and e.x and e.x.get("handler")]
        un = [e for e in s.events() if e.kind == "cb" and e.name != "poll_modify"]
        if un: chk.unsure("W01.dispatch", fn, "handler identity", "a handler is called through a pointer that is not followed", un[0].line); continue
        for e in hs:
            if id(e) in checked and k != "ret": continue
            checked.add(id(e)); n += 1
            chk.ob("W01.dispatch.command", s, EQ(byte(s, e.x["p"]), codes[e.name]), fn=e.fn, line=e.line, what="a handler runs for a command byte that is not its own", key="command")
            chk.ob("W01.dispatch.nonempty", s, GE(e.x["u"], 1), fn=e.fn, line=e.line, what="a handler runs although no input is pending", key="nonempty")
            chk.ob("W01.dispatch.args", s, [EQ(e.args[0].e, conn), EQ(e.args[1].e, ud.e)], fn=e.fn, line=e.line, what="a handler is called for another connection or context", key="args")
        if k != "ret": continue
        u1, p1 = models.cb_get(ip, s, rb)
        for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
            last = hs[-1] if hs else None
            lfail = last is not None and last.x["kind"] != "ok"
            if lfail:
                chk.ob("W01.dispatch.outcome", s1, EQ(r, ip.view(s1, last.ret, "s")), fn=fn, line=last.line, what="the outcome of an unfinished command is not reported", key="outcome")
                continue
            for s2, z in splits(s1, EQ(r, 0)):
                if z: chk.ob("W01.dispatch.drained", s2, EQ(u1, 0), fn=fn, what="handling stops although further commands are pending", key="drained"); continue
                # unknown command: nothing was consumed by the loop itself
                for s3, some in splits(s2, GE(u1, 1)):
                    if not some: continue
                    for s4, b in evals(s3, lambda q: byte(q, p1)):
                        chk.ob("W01.dispatch.unknown", s4, [NE(b, c) for c in codes.values()], fn=fn, what="a known command is reported as a protocol error instead of being handled", key="unknown")
                    chk.ob("W01.dispatch.eproto", s3, EQ(r, 71), fn=fn, what="an unknown command is not reported as a protocol error", key="eproto")
    chk.fact("W01.dispatch.present", State(), n > 0, fn=fn, what="no command handler is ever run", key="present")

def passed_on(chk):
    """a protocol error on the stream surfaces from the read entry points"""
    M = chk.M
    for role, fn, T in (("pub", "rmc_pub_read", "rmc_pub_context"), ("sub", "rmc_sub_read", "rmc_sub_context")):
        op = {"rmc_conn_tcp_read": opq([71]), "rmc_pub_close_connection": opq([0]), "rmc_sub_close_connection": opq([0]), "sub_process_received_packets": opq([None])}
        ip = chk.interp(field_inv=inv(), opaque=op); st = State()
        args, by = chk.arg_syms(fn, ctx=V(64, fresh_obj("ctx", T)), s_ind=V(16, S(new_sym("s_ind", 0, 0x7FFB))))
        for s, x in returns(chk, chk.run(ip, fn, args, st)):
            if not calls(s, "rmc_conn_tcp_read"): continue
            for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
                chk.ob("W01.passed-on", s1, NE(r, 0), fn=fn, what="a protocol error on a control channel is reported as success", key="passed-on")

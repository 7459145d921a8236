"""W03, W04, W05(a): byte streams of control channels, multicast datagrams in and out."""
from rules.ctx import *
from rules.wire import header_fields, resend_scn, appends_whole
import rules.cmds as cmds

def ghost_at(ip, st, ev, cb, name):
    for g, e in ev.ghost.items():
        if g[1] == name and st.norm(g[0]) == st.norm(cb): return st.norm(e)
    return ip.ghost_initial((st.norm(cb), name))

def iov_is_stream(chk, rule, s, e, cb, start, fn, what):
    """the segments of a vectored transfer are stream positions start.. in order, each inside its grant; returns total or None"""
    v = e.x.get("iov")
    if v is None:
        chk.unsure(rule, fn, "segments", "the number of segments is not a constant", e.line); return None
    cur = C(0); todo = [(s, 0, C(0))]; out = []
    while todo:
        q, i, cur = todo.pop()
        if i == len(v): out.append((q, cur)); continue
        b, n = q.norm(v[i][0]), q.norm(v[i][1])
        for q2, some in splits(q, GE(n, 1)):
            if not some: todo.append((q2, i + 1, cur)); continue
            sb = keybase(q2.norm(b).t) if q2.norm(b).t else None
            if sb not in SEG:
                chk.fact(rule, q2, False, fn=fn, line=e.line, what=what, key="segment"); continue
            c, pos, ln = SEG[sb]; rel = q2.norm(b) - S(sb)
            if q2.norm(c) != q2.norm(cb):
                chk.fact(rule, q2, False, fn=fn, line=e.line, what=what, key="segment"); continue
            chk.ob(rule, q2, [EQ(pos + rel, start + cur), LE(rel + n, ln), GE(rel, 0)], fn=fn, line=e.line, what=what, key="segment")
            todo.append((q2, i + 1, q2.norm(cur + n)))
    return out

def W03(chk):
    M = chk.M
    chk.need("rmc_conn_tcp_read", "rmc_conn_process_tcp_write", "rmc_conn_process_tcp_read", "rmc_pub_read", "rmc_sub_read", "rmc_pub_write", "rmc_sub_write")
    chk.assume += [ASSUME_CB, ASSUME_RING, "readv/writev/recvfrom/sendmsg transfer exactly the number of bytes they report, from or to the segments in order"]
    # ---- reading
    fn = "rmc_conn_tcp_read"
    ip = chk.interp(field_inv=inv(), opaque={"rmc_conn_process_tcp_read": opq([0, 11, anyerr])}); st = State()
    cv = fresh_obj("conn_vec", "rmc_connection_vector"); idx = S(new_sym("s_ind", 0, 0x7FFB))
    st.assume(LT(idx, val(ip, st, cv, "rmc_connection_vector", "size").e))
    conn = st.norm(val(ip, st, cv, "rmc_connection_vector", "connections").e + idx * M.size("rmc_connection"))
    st.assume(EQ(val(ip, st, conn, "rmc_connection", "mode").e, CONNECTED))
    fd = val(ip, st, conn, "rmc_connection", "descriptor").e; st.assume(GE(fd, 0))
    rb = st.norm(conn + M.member("rmc_connection", "read_buf")[0]); u0, p0 = models.cb_get(ip, st, rb)
    opr = S(ptr_sym("op_res", False, None, "base"))
    args, by = chk.arg_syms(fn, conn_vec=V(64, cv), s_ind=V(16, idx), op_res=V(64, opr), dispatch_table="nonnull")
    args[-1] = V(64, S(ptr_sym("user_data", False, None, "base")))
    DISC = op_code(M, "RMC_READ_DISCONNECT")
    n = 0
    for k, s, x in chk.run(ip, fn, args, st):
        if k == "fault": chk.fact("W03.fault", s, False, what="reading can fault: %s" % x, key="fault"); continue
        if k != "ret": continue
        rd = [e for e in s.events() if e.kind == "sys" and e.name in ("readv", "read", "recv", "recvfrom", "recvmsg")]
        pr = calls(s, "rmc_conn_process_tcp_read")
        u1, p1 = models.cb_get(ip, s, rb)
        if any(e.name != "readv" for e in rd) or len(rd) > 1:
            chk.unsure("W03.read", fn, "one readv", "input is read with another call, or more than one"); continue
        if not rd:
            chk.ob("W03.read.refused", s, [EQ(u1, u0), EQ(p1, p0)], fn=fn, what="pending input changes although nothing was read from the socket", key="refused")
            for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
                chk.ob("W03.read.refused-reported", s1, NE(r, 0), fn=fn, what="success is reported although nothing was read from the socket", key="refused-reported")
            chk.ob("W03.read.only-full", s, EQ(u0, CAP), fn=fn, what="the socket is not read although there is room for more input", key="only-full")
            continue
        e = rd[0]; n += 1
        chk.ob("W03.read.fd", s, EQ(ip.view(s, e.args[0], "s"), fd), fn=e.fn, line=e.line, what="input is read from another descriptor than the connection's", key="fd")
        iov_is_stream(chk, "W03.read.where", s, e, rb, p0 + u0, e.fn, "received bytes do not go, in order, right behind the pending input")
        for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
            got = ip.view(s1, e.ret, "s") if e.x["ok"] else C(-1)
            for s2, some in splits(s1, GE(got, 1)):
                if some:
                    chk.fact("W03.read.handled-once", s2, len(pr) == 1, fn=fn, what="received input is not handed on exactly once", key="handled")
                    for c in pr[:1]:
                        chk.ob("W03.read.kept", s2, [EQ(ghost_at(ip, s2, c, rb, "in_use"), u0 + got), EQ(ghost_at(ip, s2, c, rb, "pos"), p0)], fn=fn, line=c.line, what="the pending input does not grow by exactly the bytes received", key="kept")
                        chk.ob("W03.read.passed", s2, [EQ(c.args[0].e, cv), EQ(c.args[1].e, idx), EQ(c.args[2].e, opr), EQ(c.args[3].e, args[3].e), EQ(c.args[4].e, args[4].e)], fn=fn, line=c.line, what="received input is handed on for another connection", key="passed")
                        chk.ob("W03.read.result", s2, EQ(ip.view(s2, c.ret, "s"), r), fn=fn, what="the outcome of handling the input is not passed on", key="result")
                else:
                    chk.ob("W03.read.eof", s2, [EQ(u1, u0), EQ(p1, p0)], fn=fn, what="pending input changes although the socket delivered nothing", key="eof")
                    chk.fact("W03.read.eof-idle", s2, not pr, fn=fn, what="input is handled although the socket delivered nothing", key="eof-idle")
                    chk.ob("W03.read.eof-reported", s2, EQ(r, 32), fn=fn, what="end of stream or a read error is not reported as EPIPE", key="eof-reported")
                    o = ip.load(s2, opr, 1, mem=s2.mem, peek=True)
                    chk.ob("W03.read.eof-op", s2, EQ(ip.view(s2, o, "u"), DISC), fn=fn, what="end of stream or a read error is not reported as a disconnect", key="eof-op")
    chk.fact("W03.read.present", State(), n > 0, fn=fn, what="the socket is never read", key="present")
    # ---- writing
    fn = "rmc_conn_process_tcp_write"
    ip = chk.interp(field_inv=inv()); st = State()
    conn = fresh_obj("conn", "rmc_connection"); left = S(ptr_sym("bytes_left", False, None, "base"))
    fd = val(ip, st, conn, "rmc_connection", "descriptor").e; st.assume(GE(fd, 0))
    wb = conn + M.member("rmc_connection", "write_buf")[0]; u0, p0 = models.cb_get(ip, st, wb)
    n = 0
    for k, s, x in chk.run(ip, fn, [V(64, conn), V(64, left)], st):
        if k == "fault": chk.fact("W03.fault", s, False, what="writing can fault: %s" % x, key="fault"); continue
        if k != "ret": continue
        wr = [e for e in s.events() if e.kind == "sys" and e.name in ("writev", "write", "send", "sendmsg", "sendto")]
        u1, p1 = models.cb_get(ip, s, wb)
        lv = ip.load(s, left, 4, mem=s.mem, peek=True)
        if any(e.name != "writev" for e in wr) or len(wr) > 1:
            chk.unsure("W03.write", fn, "one writev", "output is written with another call, or more than one"); continue
        if not wr:
            chk.ob("W03.write.only-empty", s, EQ(u0, 0), fn=fn, what="pending output is not offered to the socket", key="only-empty")
            chk.ob("W03.write.left", s, [EQ(u1, u0), EQ(ip.view(s, lv, "u"), u0)], fn=fn, what="the reported remainder is not what is pending", key="left0")
            continue
        e = wr[0]; n += 1
        chk.ob("W03.write.fd", s, EQ(ip.view(s, e.args[0], "s"), fd), fn=e.fn, line=e.line, what="output is written to another descriptor than the connection's", key="fd")
        tot = iov_is_stream(chk, "W03.write.what", s, e, wb, p0, e.fn, "the bytes offered to the socket are not the oldest pending output, in order")
        for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
            got = ip.view(s1, e.ret, "s") if e.x["ok"] else C(-1)
            for s2, some in splits(s1, GE(got, 1)):
                if some:
                    chk.ob("W03.write.removed", s2, [EQ(u1, u0 - got), EQ(p1, p0 + got)], fn=fn, what="not exactly the bytes the socket accepted are removed from the pending output", key="removed")
                    chk.ob("W03.write.ok", s2, EQ(r, 0), fn=fn, what="a write the socket accepted is reported as failed", key="ok")
                else:
                    chk.ob("W03.write.failed", s2, [EQ(u1, u0), EQ(p1, p0)], fn=fn, what="a failed or empty write changes the pending output", key="failed")
                    if not e.x["ok"]: chk.ob("W03.write.error", s2, NE(r, 0), fn=fn, what="a failed write is reported as success", key="error")
                chk.ob("W03.write.left", s2, EQ(ip.view(s2, lv, "u"), u1), fn=fn, what="the reported remainder is not what is still pending", key="left")
    chk.fact("W03.write.present", State(), n > 0, fn=fn, what="the socket is never written", key="present-w")
    # ---- nobody else takes bytes out of the output or puts bytes into the input
    for role, T in (("pub", "rmc_pub_context"), ("sub", "rmc_sub_context")):
        # a lost peer is reported and the connection closed
        fn = "rmc_%s_read" % role; close = "rmc_%s_close_connection" % role
        ip = chk.interp(field_inv=inv(), opaque={"rmc_conn_tcp_read": tcp_read_model(M, [32, 0]), close: opq([0]), "sub_process_received_packets": opq([None]), "rmc_conn_process_accept": opq([anyerr])})
        st = State(); ctx = fresh_obj("ctx", T); opr = S(ptr_sym("op_res", False, None, "base")); idx = S(new_sym("s_ind", 0, 0x7FFB))
        args, by = chk.arg_syms(fn, ctx=V(64, ctx), s_ind=V(16, idx), op_res=V(64, opr))
        for k, s, x in chk.run(ip, fn, args, st):
            if k != "ret": continue
            t = calls(s, "rmc_conn_tcp_read"); c = calls(s, close)
            for e in t:
                for s2, lost in splits(s, EQ(e.ret.e, 32)):
                    chk.fact("W03.lost.closed", s2, len(c) == (1 if lost else 0), fn=fn, line=e.line, what="a connection is not closed exactly when its peer is gone", key="closed")
                    if lost:
                        for q in c: chk.ob("W03.lost.which", s2, [EQ(q.args[0].e, ctx), EQ(q.args[1].e, idx)], fn=fn, line=q.line, what="another connection is closed than the one whose peer is gone", key="which")
                        o = ip.load(s2, opr, 1, mem=s2.mem, peek=True)
                        chk.ob("W03.lost.reported", s2, EQ(ip.view(s2, o, "u"), DISC), fn=fn, what="losing the peer is not reported as a disconnect", key="reported")
        # a write goes through the one function that keeps the account
        fn = "rmc_%s_write" % role
        ip = chk.interp(field_inv=inv(), opaque={"rmc_conn_process_tcp_write": opq([0, anyerr]), "rmc_conn_complete_connection": opq([0, anyerr]), "pub_next_queued_packet": opq([0]), "sub_init_publisher": opq([None])})
        st = State(); idx = S(new_sym("s_ind", 0, 0x7FFB)); ctx = fresh_obj("ctx", T)
        args, by = chk.arg_syms(fn, ctx=V(64, ctx), s_ind=V(16, idx))
        for k, s, x in chk.run(ip, fn, args, st):
            if k != "ret": continue
            for e in s.events() if calls(s, "rmc_conn_process_tcp_write") else ():
                if e.kind in ("cb_free", "cb_trim", "cb_init"):
                    chk.fact("W03.account", s, False, fn=e.fn, line=e.line, what="pending output is dropped without having been sent", key="account")
            for c in calls(s, "rmc_conn_process_tcp_write"):
                cn = val(ip, State(), ctx, T, "conn_vec.connections").e + idx * M.size("rmc_connection")
                chk.ob("W03.account.conn", s, EQ(c.args[0].e, cn), fn=c.fn, line=c.line, what="another connection's output is sent", key="conn")

def tcp_read_model(M, choices):
    """rmc_conn_tcp_read as decided by the rules on it: a lost peer comes with RMC_READ_DISCONNECT"""
    D = op_code(M, "RMC_READ_DISCONNECT")
    def eff(ip, st, name, args, r):
        if r is not None and not r.e.t and r.e.c == 32: ip.store(st, args[2].e, VC(8, D), 1)
        else: ip.store(st, args[2].e, VC(8, op_code(M, "RMC_READ_TCP")), 1)
    return opq(choices, effect=eff)
OPS = {}
def op_code(M, name):
    if not OPS:
        import re, os, ir
        for f in sorted(os.listdir(ir.REPO)):
            if f.endswith(".h"):
                for m in re.finditer(r"^#define\s+(RMC_(?:READ|WRITE)_\w+|RMC_ERROR|RMC_COMPLETE\w*)\s+(0x[0-9a-fA-F]+|\d+)", open(os.path.join(ir.REPO, f)).read(), re.M): OPS[m.group(1)] = int(m.group(2), 0)
    if name not in OPS: raise ir_error("constant %s is not defined" % name)
    return OPS[name]
def ir_error(m):
    import ir
    return ir.AnalysisError(m)

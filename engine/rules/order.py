"""A02: byte order of addresses and ports at every crossing between the library, the socket layer and the application."""
from rules.conns import *
from rules.dgram import Dgram, RECV
from rules.wire import Mcast
import rules.cmds as cmds

MC_IF, ADD_MEMBER, IPPROTO_IP = 32, 35, 0
def net(s, e, bits): return models.bswap(s, e, bits)
def at_addr(ip, s, e, a, off, size):
    """bytes of the socket address given to (or filled in by) a kernel call"""
    return s.norm(ip.view(s, ip.load(s, s.norm(a) + off, size, mem=e.mem, peek=True), "u"))

def crossing(chk, R, ip, s, e, a, what, key, addr=None, port=None):
    """the socket address at a, as of event e, is the given host-order address and port in network order"""
    for nm, off, size, v in (("address", 4, 4, addr), ("port", 2, 2, port)):
        if v is None: continue
        for q, (got, want) in evals(s, lambda z: (at_addr(ip, z, e, a, off, size), net(z, v, 8 * size))):
            chk.ob(R, q, EQ(got, want), fn=e.fn, line=e.line, what="%s: the %s is not the configured one in network order" % (what, nm), key="%s-%s" % (key, nm))

def host(chk, R, ip, s, e, a, got, what, key, fn=None, line=None):
    """(address, port) are those of the socket address filled in by event e, in host order"""
    for nm, off, size, g in (("address", 4, 4, got[0]), ("port", 2, 2, got[1])):
        if g is None: continue
        for q, (have, want) in evals(s, lambda z: (z.norm(g), net(z, at_addr(ip, z, e, a, off, size), 8 * size))):
            chk.ob(R, q, EQ(have, want), fn=fn or e.fn, line=line if line is not None else e.line, what="%s: the %s is not the peer's in host order" % (what, nm), key="%s-%s" % (key, nm))

def A02(chk):
    R = "A02"; M = chk.M; n = 0
    chk.need("rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept", "rmc_pub_activate_context", "rmc_sub_activate_context", "rmc_pub_init_context", "rmc_sub_init_context", "rmc_pub_write", "rmc_sub_read", "rmc_conn_find_by_address")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2 connection slots)", ASSUME_RING, "the address and port of a publisher inside a packet header are in the sender's order, as today"]
    def run(H, fn, args):
        s0 = H.st.fork()
        for s, x in ends(chk, R, fn, chk.run(H.ip, fn, args, s0.fork())): yield s, x, s.events()[len(s0.events()):]
    # connecting
    for modes in ([CLOSED, CLOSED], [CONNECTED, CLOSED], [CLOSED, CONNECTED]):
        H = Host(chk, "sub", modes); ip = H.ip
        A = S(new_sym("address", 0, (1 << 32) - 1)); P = S(new_sym("port", 0, 65535)); N = S(new_sym("node", 0, (1 << 32) - 1))
        for s, x, ev in run(H, "rmc_conn_connect_tcp_by_address", [V(64, H.cv), V(32, A), V(16, P), V(32, N), out_index()]):
            for e in ev:
                if e.kind == "sys" and e.name == "connect": n += 1; crossing(chk, R + ".connect", ip, s, e, e.args[1].e, "connecting to a publisher", "connect", A, P)
            for i in range(2):
                if modes[i] or H.cf(s, i, "descriptor", "s") == C(-1): continue
                chk.ob(R + ".connect", s, [EQ(H.cf(s, i, "remote_address"), A), EQ(H.cf(s, i, "remote_port"), P)], fn="rmc_conn_connect_tcp_by_address", what="a connection does not keep the address it was opened for in host order", key="connect-kept")
    # accepting, and telling the application
    for modes in ([CLOSED, CLOSED], [CONNECTED, CLOSED], [CLOSED, CONNECTED]):
        for fn in ("rmc_conn_process_accept", "rmc_pub_read"):
            H = Host(chk, "pub", modes); ip = H.ip
            lf = ip.load(H.st, H.ctx + M.member(PC, "listen_descriptor")[0], 4)
            for s, x, ev in run(H, fn, [lf, V(64, H.cv), out_index()] if fn != "rmc_pub_read" else [V(64, H.ctx), VC(16, LISTEN), op_res()]):
                ac = [e for e in ev if e.kind == "sys" and e.name in ("accept", "accept4") and e.x["ok"]]
                for e in ac:
                    n += 1
                    for i in range(2):
                        fd = s.norm(ip.view(s, e.ret, "s"))
                        if H.cf(s, i, "descriptor", "s") == fd: host(chk, R + ".accept", ip, s, e, e.args[1].e, (H.cf(s, i, "remote_address"), H.cf(s, i, "remote_port")), "an accepted connection", "accept", fn=fn)
                    for c in ev:
                        if c.kind == "cb" and c.name == "subscriber_connect_cb": host(chk, R + ".told", ip, s, e, e.args[1].e, (ip.view(s, c.args[1], "u"), ip.view(s, c.args[2], "u")), "the subscriber reported to the application", "connect-cb", fn=c.fn, line=c.line)
    # the other callbacks
    def told(H, fn, args, name, i):
        nonlocal n
        for s, x, ev in run(H, fn, args):
            for c in ev:
                if c.kind == "cb" and c.name == name:
                    n += 1
                    for k, f in ((1, "remote_address"), (2, "remote_port")):
                        chk.ob(R + ".told", s, EQ(H.ip.view(s, c.args[k], "u"), H.cf(H.st, i, f)), fn=c.fn, line=c.line, what="%s is not given the connection's %s in host order" % (name, f.replace("remote_", "")), key="%s-%s" % (name, f))
    for i in range(2):
        H = Host(chk, "pub", [CONNECTED, CONNECTED])
        told(H, "rmc_pub_close_connection", [V(64, H.ctx), VC(16, i)], "subscriber_disconnect_cb", i)
        H = Host(chk, "pub", [CONNECTED, CONNECTED], opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [32])))
        told(H, "rmc_pub_read", [V(64, H.ctx), VC(16, i), op_res()], "subscriber_disconnect_cb", i)
        H = Host(chk, "sub", [CONNECTING, CONNECTING])
        told(H, "rmc_sub_write", [V(64, H.ctx), VC(16, i), op_res()], "subscription_complete_cb", i)
    tabs = cmds.tables(chk)
    for role, code, h, kind in cmds.handlers(chk, tabs):
        if kind != "ctl": continue
        X = cmds.Handler(chk, role, h, cmds.OPAQUE)
        for k, s, x in X.run():
            for c in s.events():
                if c.kind == "cb" and c.name == "subscriber_control_message_cb":
                    n += 1
                    for j, f in ((1, "remote_address"), (2, "remote_port")):
                        chk.ob(R + ".told", s, EQ(X.ip.view(s, c.args[j], "u"), at(X.ip, s, c, X.conn, CN, f)), fn=c.fn, line=c.line, what="a control message is not reported with the sender's %s in host order" % f.replace("remote_", ""), key="control-%s" % f)
    # looking a publisher up
    for modes in ([CONNECTED, CLOSED], [CONNECTING, CONNECTED]):
        H = Host(chk, "sub", modes); ip = H.ip; A = S(new_sym("address", 0, (1 << 32) - 1)); P = S(new_sym("port", 0, 65535))
        for i, m in enumerate(modes):
            if not m: continue
            st = H.st.fork()
            st.assume(EQ(A, H.cf(H.st, i, "remote_address"))); st.assume(EQ(P, H.cf(H.st, i, "remote_port"))); n += 1
            for s, x in ends(chk, R, "rmc_conn_find_by_address", chk.run(ip, "rmc_conn_find_by_address", [V(64, H.cv), V(32, A), V(16, P)], st)):
                for q, v in evals(s, lambda z: z.norm(x.e)): chk.ob(R + ".lookup", q, NE(v, 0), fn="rmc_conn_find_by_address", what="an open connection is not found by its address in host order", key="lookup")
    # a context's own sockets
    for role in ("pub", "sub"):
        fn = "rmc_%s_activate_context" % role
        H = Host(chk, role, [CLOSED, CLOSED], active=False); ip = H.ip
        f = {k: vale(ip, H.st, H.ctx, H.struct, k) for k in ("mcast_group_addr", "mcast_if_addr", "mcast_port") + (("control_listen_if_addr", "control_listen_port") if role == "pub" else ())}
        for k in ("mcast_port", "control_listen_port"):
            if k in f: H.st.assume(LE(f[k], 65535)); H.st.assume(GE(f[k], 0))
        for s, x, ev in run(H, fn, [V(64, H.ctx)]):
            ports = []
            for e in ev:
                if e.kind != "sys": continue
                if e.name == "bind":
                    n += 1
                    if role == "pub": crossing(chk, R + ".bind", ip, s, e, e.args[1].e, "the socket subscribers connect to", "bind", f["control_listen_if_addr"], f["control_listen_port"])
                    else: crossing(chk, R + ".bind", ip, s, e, e.args[1].e, "the multicast socket", "bind", None, f["mcast_port"])
                elif e.name == "setsockopt":
                    lv = s.norm(ip.view(s, e.args[1], "s")); op = s.norm(ip.view(s, e.args[2], "s")); a = e.args[3].e
                    if lv == C(IPPROTO_IP) and op == C(MC_IF): want = ((0, f["mcast_if_addr"], "interface"),)
                    elif lv == C(IPPROTO_IP) and op == C(ADD_MEMBER): want = ((0, f["mcast_group_addr"], "group"), (4, f["mcast_if_addr"], "interface"))
                    else: continue
                    n += 1
                    for off, v, nm in want:
                        for q, (got, w) in evals(s, lambda z: (at_addr(ip, z, e, a, off, 4), net(z, v, 32))):
                            chk.ob(R + ".multicast", q, EQ(got, w), fn=e.fn, line=e.line, what="the %s address given to the socket is not the configured one in network order" % nm, key="multicast-" + nm)
                elif e.name == "getsockname" and e.x["ok"]: ports.append(e)
            if role == "pub":
                for q, r in evals(s, lambda z: ip.view(z, x, "s")):
                    if not q.entails(EQ(r, 0)): continue
                    now = vale(ip, q, H.ctx, PC, "control_listen_port"); n += 1
                    now = q.norm(ip.view(q, ip.load(q, H.ctx + M.member(PC, "control_listen_port")[0], M.member(PC, "control_listen_port")[1]["size"], mem=q.mem, peek=True), "u"))
                    for z0, z in splits(q, EQ(f["control_listen_port"], 0)):
                        if z:
                            if not ports: chk.fact(R + ".port", z0, False, fn=fn, what="an unspecified control port is not learnt from the socket", key="port-ask")
                            else: host(chk, R + ".port", ip, z0, ports[-1], ports[-1].args[1].e, (None, now), "the control port picked by the system", "port", fn=ports[-1].fn)
                        else: chk.ob(R + ".port", z0, EQ(now, f["control_listen_port"]), fn=fn, what="activation alters the configured control port", key="port-kept")
    # sending
    D = Mcast(chk)
    for k, s, x in D.outs:
        for e in s.events():
            if e.kind == "sys" and e.name == "sendmsg" and e.x["dst"] is not None:
                n += 1
                for q, (a, p) in evals(s, lambda z: (net(z, D.gaddr, 32), net(z, D.gport, 16))):
                    chk.ob(R + ".send", q, [EQ(e.x["dst"]["addr"], a), EQ(e.x["dst"]["port"], p)], fn=e.fn, line=e.line, what="a packet is not sent to the group address and port in network order", key="send")
    # receiving
    D = Dgram(chk, ready=opq([None])); ip = D.ip
    for k, s, x in D.outs:
        L = D.last(s)
        if L is None: continue
        rc, after, buf = L
        for e in after:
            j = {"rmc_conn_find_by_address": (1, 2), "rmc_conn_connect_tcp_by_address": (1, 2), "announce_cb": (1, 2)}.get(e.name) if e.kind in ("opq", "cb") else None
            if j is None: continue
            n += 1; li = D.field(s, rc, "listen_ip"); lp = D.field(s, rc, "listen_port")
            for q, zero in splits(s, EQ(li, 0)):
                for q1, (a, src) in evals(q, lambda z: (z.norm(ip.view(z, e.args[j[0]], "u")), D.src(z, rc))):
                    chk.ob(R + ".receive", q1, EQ(a, src if zero else li), fn=e.fn, line=e.line, what="%s is not given the publisher's address in host order%s" % (e.name, " (the sender's, when it names none)" if zero else ""), key="receive-%s-%d" % (e.name, zero))
            chk.ob(R + ".receive", s, EQ(ip.view(s, e.args[j[1]], "u"), lp), fn=e.fn, line=e.line, what="%s is not given the publisher's port in host order" % e.name, key="receive-port-" + e.name)
    # addresses given as text
    for role in ("pub", "sub"):
        for s, t, H in inits(chk, R, role):
            for arg, f in t["text"].items():
                a = t["aton"].get(arg)
                if a is None: chk.unsure(R + ".text", t["fn"], f, "the address text is not converted with inet_aton"); continue
                n += 1; off, m = M.member(H["struct"], f)
                for q, (got, want) in evals(s, lambda z: (z.norm(t["ip"].view(z, t["ip"].load(z, t["ctx"] + off, 4, mem=z.mem, peek=True), "u")), net(z, at_addr(t["ip"], z, a, a.args[1].e, 0, 4), 32))):
                    chk.ob(R + ".text", q, EQ(got, want), fn=t["fn"], line=a.line, what="%s is not kept in host order" % f, key="text-" + f)
    chk.fact(R + ".present", State(), n > 60, fn="rmc_conn_process_accept", what="not every crossing could be followed", key="present")

INIT = dict(pub=dict(struct=PC, text=dict(mcast_group_addr="mcast_group_addr", mcast_if_addr="mcast_if_addr", control_listen_if_addr="control_listen_if_addr")),
            sub=dict(struct=SC, text=dict(mcast_group_addr="mcast_group_addr", mcast_if_addr="mcast_if_addr")))
POS = dict(pub=("context_res", "node_id", "mcast_group_addr", "multicast_port", "mcast_if_addr", "control_listen_if_addr", "control_listen_port", "user_data", "poll_add", "poll_modify", "poll_remove", "max", "payload_free"),
           sub=("context_res", "node_id", "mcast_group_addr", "multicast_port", "mcast_if_addr", "user_data", "poll_add", "poll_modify", "poll_remove", "max", "payload_alloc", "payload_free"))
def inits(chk, R, role, size=2, omit=(), failing=False, zero=(), opaque=None):
    """successful (or failing) initialisations with every argument given, except `omit`ted optional texts; yields (state, dict, dict)"""
    M = chk.M; fn = "rmc_%s_init_context" % role; ip = shape_interp(chk, opaque, {}); st = State(); F = M.funcs[fn]; I = INIT[role]
    if len(F.args) != len(POS[role]): raise ir_error("%s has %d arguments" % (fn, len(F.args)))
    A = {}; args = []
    for i, (a, nm) in enumerate(zip(F.args, POS[role])):
        if nm == "context_res": v = V(64, cell("context_res", None, 8)); put(ip, st, v.e, V(64, S(new_sym("junk", 1, 1 << 40))))
        elif nm == "max": v = VC(32, size)
        elif nm in I["text"]: v = V(64, C(0)) if nm in omit else V(64, S(ptr_sym("text_" + nm, False, None, "base")))
        elif a["ty"] == "p" and nm != "user_data": v = V(64, C(0)) if nm in zero else V(64, S(new_sym(nm, 1 << 20, 1 << 47, "fptr", None, ("arg", nm))))
        elif nm == "user_data": v = V(64, S(new_sym(nm, 0, 1 << 62)))
        else: v = V(int(a["ty"][1:]), S(new_sym(nm, 0 if nm != "node_id" else (0 if "node_id" in zero else 1), 0 if nm in zero else (65535 if "port" in nm else (1 << 31) - 1))))
        args.append(v); A[nm] = v
    s0 = st.fork()
    for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
        ev = s.events()[len(s0.events()):]
        for q, r in evals(s, lambda z: ip.view(z, x, "s")):
            for q1, ok in splits(q, EQ(r, 0)):
                if ok == failing: continue
                aton = {}
                for e in ev:
                    if e.kind == "sys" and e.name == "inet_aton":
                        for nm in I["text"]:
                            if q1.norm(e.args[0].e) == A[nm].e and A[nm].e.t: aton[nm] = e
                ctx = q1.norm(ip.load(q1, A["context_res"].e, 8, mem=q1.mem, peek=True, hint="p").e)
                yield q1, dict(fn=fn, ip=ip, ctx=ctx, args=A, aton=aton, text=I["text"], ev=ev, s0=s0), I

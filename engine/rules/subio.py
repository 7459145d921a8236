"""S05-S07: payload ownership, subscription set-up, and telling the application, on the subscriber side."""
from rules.shapes import *
from rules.dgram import Dgram, acts
from rules.subq import bad_ends
from rules import cmds
from rules.pubq import free_slots, FAR
import itertools

SC = "rmc_sub_context"
def heap_cb(ip, st, a, struct, field, present):
    """make a callback field definitely set / unset in an explicit context"""
    v = val(ip, st, a, struct, field).e
    st.assume(NE(v, 0) if present else EQ(v, 0))
    return v

# ------------------------------------------------------------------------------------------------ S05
def sized(ip, st, e):
    """(buffer, length, matching release) of an allocation event"""
    if e.kind == "alloc": return e.args[0].e, SYMS[e.x].field
    return e.ret.e, ip.view(st, e.args[0], "u")

def received(chk, R, ip, s, ctx, after, plen, fn, chan):
    """allocations of one received packet: exact size, recorded once, or given back"""
    al = [e for e in after if e.kind == "cb" and e.name == "payload_alloc"]
    hook = val(ip, State(), ctx, SC, "payload_alloc").e
    heap = [e for e in after if e.kind == "alloc"]
    rec = [e for e in after if e.kind in ("opq", "call") and e.name in ("sub_packet_received", "rmc_sub_packet_received")]
    recs = []
    for e in rec:
        p = s.norm(e.args[2 if e.name == "sub_packet_received" else 3].e)
        if not any(q is not e and q.name == "sub_packet_received" and e.name != q.name for q in rec) or e.name == "sub_packet_received": recs.append((e, p))
    freed = [s.norm(e.args[0].e) for e in after if e.kind == "free" or (e.kind == "cb" and e.name == "payload_free")]
    for e in al:
        chk.ob(R + ".alloc.args." + chan, s, [EQ(ip.view(s, e.args[0], "u"), plen), EQ(e.args[1].e, at(ip, s, e, ctx, SC, "user_data.u64") if False else udat(ip, s, e, ctx))], fn=e.fn, line=e.line, what="payload memory is not asked for with exactly the packet's length and the context's user data", key="alloc-args-" + chan)
    for e, p in recs:
        src = [q for q in al if s.entails(EQ(q.ret.e, p))]
        mal = [q for q in heap if s.entails(EQ(q.args[0].e, p))]
        for s2, custom in splits(s, NE(hook, 0)):
            chk.fact(R + ".alloc." + chan, s2, bool(src) if custom else bool(mal), fn=e.fn, line=e.line, what="a packet's payload memory does not come from the %s allocator" % ("configured" if custom else "default"), key="alloc-%s-%d" % (chan, custom))
            if not custom:
                for q in mal: chk.ob(R + ".alloc.size." + chan, s2, EQ(SYMS[q.x].field, plen), fn=q.fn, line=q.line, what="payload memory is not exactly as long as the payload", key="alloc-size-" + chan)
    for e in al + heap:
        p = s.norm(e.ret.e if e.kind == "cb" else e.args[0].e)
        n = sum(1 for _, q in recs if s.entails(EQ(q, p))); k = sum(1 for q in freed if s.entails(EQ(q, p)))
        if e.kind == "alloc" and not n and e.fn not in chk.rx_alloc: continue
        chk.fact(R + ".one-owner." + chan, s, n + k == 1, fn=e.fn, line=e.line, what="payload memory obtained for a packet is %s" % ("neither recorded nor released" if n + k == 0 else "owned twice"), key="owner-" + chan)
    return len(recs)
def udat(ip, s, e, ctx):
    off, m = ip.M.member(SC, "user_data")
    return s.norm(ip.load(s, ctx + off, 8, mem=e.mem, peek=True).e)

def on_receipt(chk):
    R = "S05"; M = chk.M
    chk.rx_alloc = set()
    for rnd in (0, 1):
        D = Dgram(chk); n = 0
        for k, s, x in D.outs:
            if k not in ("ret", "back"): continue
            L = D.last(s)
            if L is None: continue
            rc, after, buf = L
            if rnd == 0:
                for e in after:
                    if e.kind == "alloc" and any(q.kind == "opq" and q.name.endswith("packet_received") and s.entails(EQ(q.args[3].e, e.args[0].e)) for q in after): chk.rx_alloc.add(e.fn)
                continue
            n += received(chk, R, D.ip, s, D.ctx, after, D.field(s, rc, "payload_len"), "rmc_sub_read", "mcast")
        if rnd: chk.fact(R + ".present.mcast", State(), n > 0, fn="rmc_sub_read", what="multicast packets are never recorded", key="present-mcast")
    for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
        if kind != "packet": continue
        H = cmds.Handler(chk, role, h, cmds.OPAQUE); n = 0
        for k, s, x in H.run():
            if k != "ret": continue
            ev = s.events()
            for e in ev:
                if e.kind == "alloc" and any(q.kind == "opq" and q.name == "sub_packet_received" and s.entails(EQ(q.args[2].e, e.args[0].e)) for q in ev): chk.rx_alloc.add(e.fn)
            n += received(chk, R, H.ip, s, H.ctx, ev, H.stream(s, 1 + M.member(HDR, "payload_len")[0], 2), h, "tcp")
        chk.fact(R + ".present.tcp", State(), n > 0, fn=h, what="resent packets are never recorded", key="present-tcp")

class Sub:
    """an explicit subscriber context: ready queue, `slots` publishers, one with held packets"""
    def __init__(s, chk, ready=0, held=0, ivs=0, who=0, slots=2, opaque=None, acks=(), modes=None, mcast=None, pad=0):
        s.pad = pad; s.all = pad + slots        # the slots below `pad` are free
        M = chk.M; modes = modes or [CONNECTED] * slots; s.chk = chk; s.M = M; s.ip = shape_interp(chk, opaque, inv()); st = s.st = State()
        s.ctx = fresh_obj("ctx", SC); s.who = who
        if pad: s.ip.maxunroll = max(s.ip.maxunroll, pad + 12)
        s.pubs = cell("publishers", "sub_publisher", M.size("sub_publisher") * s.all); s.conns = cell("connections", "rmc_connection", M.size("rmc_connection") * s.all)
        setf(s.ip, st, s.ctx, SC, "publishers", s.pubs)
        cv = s.cv = s.ctx + M.member(SC, "conn_vec")[0]
        setf(s.ip, st, cv, "rmc_connection_vector", "connections", s.conns); setf(s.ip, st, cv, "rmc_connection_vector", "size", V(32, C(s.all)))
        free_slots(s.ip, st, M, s.conns, pad)
        s.dr = s.ctx + M.member(SC, "dispatch_ready")[0]; s.al = s.ctx + M.member(SC, "pub_ack_list")[0]
        s.modes = [C(m) for m in modes]
        s.desc = []
        for i in range(slots):
            c = s.conn(i)
            w = M.member("rmc_connection", "mode")[1]["size"] * 8
            setf(s.ip, st, c, "rmc_connection", "mode", V(w, s.modes[i])); setf(s.ip, st, c, "rmc_connection", "connection_index", VC(16, s.ix(i)))
            d = S(new_sym("fd%d" % i, 0, 1 << 20)) if modes[i] else C(-1); s.desc.append(d); setf(s.ip, st, c, "rmc_connection", "descriptor", V(32, d, "s"))
            for f, b in (("node_id", 32), ("remote_address", 32), ("remote_port", 16), ("action", 16)):
                w = M.member("rmc_connection", f)[1]["size"] * 8
                setf(s.ip, st, c, "rmc_connection", f, V(w, S(new_sym("%s%d" % (f, i), 0, 3 if f == "action" else (1 << b) - 1))) if modes[i] else VC(w, 0))
        op_ = [i for i in range(slots) if modes[i]]
        setf(s.ip, st, cv, "rmc_connection_vector", "max_connection_ind", VC(16, s.ix(op_[-1]) if op_ else NIL))
        setf(s.ip, st, cv, "rmc_connection_vector", "active_connection_count", V(32, C(len(op_))))
        s.packs = []; s.f = []
        def pack(nm, pub):
            a = cell(nm, "sub_packet", M.size("sub_packet")); d = dict(pid=S(new_sym("pid_" + nm, 1, 1 << 62)), payload=cell("payload_" + nm), payload_len=S(new_sym("len_" + nm, 0, 65535)), publisher=pub, pkg_user_data=S(new_sym("ud_" + nm, 0, 1 << 40)))
            for k, v in d.items(): put(s.ip, st, a + M.member("sub_packet", k)[0], V(8 * M.member("sub_packet", k)[1]["size"], v), M.member("sub_packet", k)[1]["size"])
            return a, d
        s.ready = [pack("ready%d" % i, s.pub(0)) for i in range(ready)]
        st, s.rnodes = mklist(chk, s.ip, st, s.dr, "sub_packet_list", [V(64, a) for a, d in s.ready])
        ti = lt(M, "sub_pid_interval_list"); io = [M.member("sub_pid_interval", f)[0] for f in ("first_pid", "last_pid", "receive_ts")]
        s.held = []; s.hnodes = []; s.inodes = []; s.iv = []; s.ivl = []; s.inl = []; s.io = io
        for i in range(slots):
            p = s.pub(i)
            hs = [pack("held%d" % j, p) for j in range(held)] if i == who else []
            s.st = st; st, nd = mklist(chk, s.ip, st, p + M.member("sub_publisher", "received_pid")[0], "sub_packet_list", [V(64, a) for a, d in hs])
            if i == who: s.held = hs; s.hnodes = nd
            m = ivs[i] if isinstance(ivs, (list, tuple)) else (ivs if i == who else 0)
            iv = [tuple(S(new_sym("%s%d_%d" % (q, i, j), 1, 1 << 62)) for q in ("first", "last", "ts")) for j in range(m)]
            for j in range(m):
                st.assume(LE(iv[j][0], iv[j][1]))
                if j: st.assume(LE(iv[j - 1][1] + 2, iv[j][0]))
            def f(j, iv=iv):
                def g(node):
                    for o, v in zip(io, iv[j]): put(s.ip, st, node + o, V(64, v))
                return g
            st, nd = mklist(chk, s.ip, st, p + M.member("sub_publisher", "received_interval")[0], "sub_pid_interval_list", [f(j) for j in range(len(iv))])
            s.ivl.append(iv); s.inl.append(nd)
            if i == who: s.inodes = nd; s.iv = iv
            setf(s.ip, st, p, "sub_publisher", "max_pid_ready", V(64, S(new_sym("max_ready%d" % i, 0, 1 << 62)))); setf(s.ip, st, p, "sub_publisher", "max_pid_received", V(64, S(new_sym("max_rec%d" % i, 0, 1 << 62))))
        st, s.anodes = mklist(chk, s.ip, st, s.al, "rmc_index_list", [VC(16, s.ix(i)) for i in acks])
        s.st = st
        s.ud = st.norm(s.ip.load(st, s.ctx + M.member(SC, "user_data")[0], 8).e)
        s.has_free = val(s.ip, st, s.ctx, SC, "payload_free").e
        s.has_alloc = val(s.ip, st, s.ctx, SC, "payload_alloc").e
    def intervals(s, st, i):
        ns, bad = rdlist(s.chk, s.ip, st, s.pub(i) + s.M.member("sub_publisher", "received_interval")[0], "sub_pid_interval_list")
        return [tuple(st.norm(s.ip.load(st, n + o, 8, mem=st.mem, peek=True).e) for o in s.io) for n in ns], bad
    def acks(s, st):
        ns, bad = rdlist(s.chk, s.ip, st, s.al, "rmc_index_list")
        return [st.norm(s.ip.view(st, s.ip.load(st, n, 2, mem=st.mem, peek=True), "u")) for n in ns], bad
    def ix(s, i): return s.pad + i
    def conn(s, i): return s.conns + s.ix(i) * s.M.size("rmc_connection")
    def pub(s, i): return s.pubs + s.ix(i) * s.M.size("sub_publisher")

def released(chk, R, X, s, packs, fn, name, gone=True, payload=True):
    """each packet's payload went back once through the matching function, its record was freed once"""
    ev = s.events()
    for s1, custom in splits(s, NE(X.has_free, 0)):
        for a, d in packs:
            pf = [e for e in ev if e.kind == "cb" and e.name == "payload_free" and s1.entails(EQ(e.args[0].e, d["payload"]))]
            fr = [e for e in ev if e.kind == "free" and s1.entails(EQ(e.args[0].e, d["payload"]))]
            rf = [e for e in ev if e.kind == "free" and s1.entails(EQ(e.args[0].e, a))]
            if payload:
                good, other = (pf, fr) if custom else (fr, pf)
                chk.fact(R + ".payload", s1, len(good) == 1 and not other, fn=fn, what="%s releases a %s packet's payload %d times with the matching function and %d times otherwise" % (fn, name, len(good), len(other)), key="payload-" + name)
                for e in good:
                    if custom: chk.ob(R + ".payload.args", s1, [EQ(X.ip.view(s1, e.args[1], "u"), d["payload_len"]), EQ(e.args[2].e, X.ud)], fn=e.fn, line=e.line, what="payload memory is not released with its length and the context's user data", key="payload-args-" + name)
            else: chk.fact(R + ".keep", s1, not pf and not fr, fn=fn, what="a payload the application keeps is released by the library", key="keep-" + name)
            if gone: chk.fact(R + ".record", s1, len(rf) == 1, fn=fn, what="%s %s" % (fn, "leaks the record of a %s packet" % name if not rf else "releases the record of a %s packet %d times" % (name, len(rf))), key="record-%s-%s" % ("twice" if rf else "leak", name))
            else: chk.fact(R + ".record", s1, not rf, fn=fn, what="%s releases the record of a packet that stays" % fn, key="record-stays-" + name)
            if gone and payload:
                # nothing of the record is read after its release: uaf events are checked by bad_ends
                pass

def dispatched(chk, N):
    R = "S05"
    for n in range(N + 1):
        for which in range(-1, n):
            for fn in ("rmc_sub_packet_dispatched", "rmc_sub_packet_dispatched_keep_payload"):
                X = Sub(chk, ready=n, slots=1)
                foreign = cell("foreign", "sub_packet", chk.M.size("sub_packet"))
                a = X.ready[which][0] if which >= 0 else foreign
                for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), V(64, a)], X.st.fork())):
                    got, bad = rdlist(chk, X.ip, s, X.dr, "sub_packet_list"); keep = fn.endswith("payload")
                    rest = [q for i, q in enumerate(X.rnodes) if i != which]
                    chk.fact(R + ".queue", s, not bad and [content(X.ip, s, lt(chk.M, "sub_packet_list"), q) for q in got] == [s.norm(p[0]) for i, p in enumerate(X.ready) if i != which], fn=fn, what="%s does not leave exactly the other packets ready, in order" % fn, key="queue")
                    if which < 0:
                        chk.ob(R + ".foreign", s, NE(X.ip.view(s, x, "s"), 0), fn=fn, what="a packet that is not in the ready queue is marked dispatched", key="foreign")
                        ev = [e for e in s.events() if e.kind in ("free", "cb")]
                        chk.fact(R + ".foreign.no-effect", s, not ev, fn=fn, line=ev[0].line if ev else None, what="memory of a packet that is not in the ready queue is released", key="foreign-effect")
                        continue
                    chk.ob(R + ".done", s, EQ(X.ip.view(s, x, "s"), 0), fn=fn, what="a ready packet cannot be marked dispatched", key="done")
                    nf = [e for e in s.events() if e.kind == "free" and s.entails(EQ(e.args[0].e, X.rnodes[which]))]
                    chk.fact(R + ".node", s, len(nf) == 1, fn=fn, what="the queue element of a dispatched packet is released %d times" % len(nf), key="node")
                    if keep:
                        released(chk, R + ".keep", X, s, [X.ready[which]], fn, "kept", gone=True, payload=False)
                    else: released(chk, R, X, s, [X.ready[which]], fn, "dispatched")
                    others = [p for i, p in enumerate(X.ready) if i != which]
                    for p, d in others:
                        hit = [e for e in s.events() if e.kind in ("free", "cb") and e.args and (s.entails(EQ(e.args[0].e, p)) or s.entails(EQ(e.args[0].e, d["payload"])))]
                        chk.fact(R + ".others", s, not hit, fn=fn, what="memory of another ready packet is released", key="others")
    X = Sub(chk, slots=1)

def closed(chk, N):
    """closing a connection and shutting down give back everything that is held"""
    R = "S05"; fn = "rmc_sub_close_connection"
    for n in range(N + 1):
        for m in range(3 if n < 2 else 1):
            for who, pad in ((0, 0), (1, 0), (1, FAR))[:3 if (n, m) == (1, 1) else 2]:
                X = Sub(chk, held=n, ivs=m, who=who, pad=pad, acks=(who,) if m else (), opaque={"rmc_conn_close_connection": opq([0, anyerr])})
                for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(who))], X.st.fork())):
                    c = calls(s, "rmc_conn_close_connection")
                    ok = c and s.entails(EQ(c[-1].ret.e, 0))
                    if not ok:
                        ev = [e for e in s.events() if e.kind in ("free", "cb")]
                        chk.fact(R + ".close.refused", s, not ev, fn=fn, what="memory is released although the connection was not closed", key="close-refused"); continue
                    released(chk, R + ".close", X, s, X.held, fn, "held")
                    empty(chk, R + ".close", X, s, who, fn)
                    for nd in X.hnodes + X.inodes:
                        k = sum(1 for e in s.events() if e.kind == "free" and s.entails(EQ(e.args[0].e, nd)))
                        chk.fact(R + ".close.nodes", s, k == 1, fn=fn, what="a queue element of a closed publisher is released %d times" % k, key="close-nodes")
    fn = "rmc_sub_deactivate_context"
    if chk.M.defined(fn):
        for n in range(3):
            X = Sub(chk, ready=n, acks=(0,) if n else (), ivs=1 if n else 0, opaque={"rmc_sub_close_connection": opq([0]), "rmc_conn_close_connection": opq([0])})
            for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx)], X.st.fork())):
                released(chk, R + ".shutdown", X, s, X.ready, fn, "ready")
                got, bad = rdlist(chk, X.ip, s, X.dr, "sub_packet_list")
                chk.fact(R + ".shutdown.queue", s, not bad and not got, fn=fn, what="released packets stay in the ready queue", key="shutdown-queue")
def empty(chk, R, X, s, i, fn):
    for f, t in (("received_pid", "sub_packet_list"), ("received_interval", "sub_pid_interval_list")):
        got, bad = rdlist(chk, X.ip, s, X.pub(i) + chk.M.member("sub_publisher", f)[0], t)
        chk.fact(R + ".empty", s, not bad and not got, fn=fn, what="a closed publisher keeps referring to what was released (%s)" % f, key="empty-" + f)

def S05(chk):
    N = 2 if chk.tier == "quick" else 4
    chk.need("rmc_sub_read", "rmc_sub_packet_dispatched", "rmc_sub_packet_dispatched_keep_payload", "rmc_sub_close_connection")
    chk.assume += [ASSUME_SHAPE + " (up to %d packets)" % N, ASSUME_CB, ASSUME_RING, "running out of memory ends the process, as the library intends"]
    on_receipt(chk); dispatched(chk, N); closed(chk, N)

# ------------------------------------------------------------------------------------------------ S06
def S06(chk):
    M = chk.M; R = "S06"
    chk.need("rmc_sub_read", "rmc_sub_write", "rmc_conn_complete_connection")
    chk.assume += [ASSUME_CB, ASSUME_RING, "a connection found by its address is connecting or connected (closed ones have no address: K01, K03)"]
    D = Dgram(chk); fn = "rmc_sub_read"; n = na = 0; H = D.H
    for k, s, x in D.outs:
        if k not in ("ret", "back"): continue
        L = D.last(s)
        if L is None: continue
        rc, after, buf = L; got = D.got(s, rc); plen = D.field(s, rc, "payload_len")
        for s1, full in splits(s, GE(got, plen + H)):
            if not full or not s1.entails(GE(got, 1)) and not s1.try_assume([GE(got, 1)]): continue
            n += 1
            if k == "ret":
                for s4, r in evals(s1, lambda q: D.ip.view(q, x, "s")):
                    for s5, ep in splits(s4, EQ(r, 71)):
                        if ep: chk.fact(R + ".accepted", s5, False, fn=fn, what="a well-formed datagram is reported as a protocol error", key="accepted")
            fnd = [e for e in after if e.kind == "opq" and e.name == "rmc_conn_find_by_address"]
            a = acts(s1, after, D)
            ip_, port, pid, node = (D.field(s1, rc, f) for f in ("listen_ip", "listen_port", "pid", "node_id"))
            for s2, given in splits(s1, NE(ip_, 0)):
                adr = ip_ if given else D.src(s2, s2_rc(s2, rc))
                con = [e for e in after if e.kind == "opq" and e.name == "rmc_conn_connect_tcp_by_address"]
                ann = [e for e in after if e.kind == "cb" and e.name == "announce_cb"]
                rec = [e for e in after if e.kind == "opq" and e.name.endswith("packet_received")]
                tag = "given" if given else "source"
                if not fnd:
                    bad = con + ann + rec
                    chk.fact(R + ".looked-up", s2, not bad, fn=fn, line=bad[0].line if bad else None, what="a datagram is acted upon without looking for the subscription it belongs to", key="looked-up")
                    if not bad:
                        for s3, z in splits(s2, EQ(pid, 0)):
                            chk.fact(R + ".ignored", s3, not (k == "ret") , fn=fn, what="a well-formed datagram is ignored", key="ignored") if False else None
                    continue
                for e in fnd:
                    chk.ob(R + ".key", s2, [EQ(e.args[0].e, D.ctx + M.member(SC, "conn_vec")[0]), EQ(D.ip.view(s2, e.args[1], "u"), adr), EQ(D.ip.view(s2, e.args[2], "u"), port)], fn=e.fn, line=e.line, what="the subscription is not looked up by the publisher's control endpoint (%s)" % ("announced address" if given else "the datagram's source"), key="key-" + tag)
                conn = fnd[-1].ret.e
                known = s2.truth(NE(conn, 0)) if s2.norm(conn).t else bool(s2.norm(conn).c)
                if known is None: chk.unsure(R, fn, "lookup result", "not decided on the path"); continue
                for e in con:
                    chk.ob(R + ".connect.args", s2, [EQ(e.args[0].e, D.ctx + M.member(SC, "conn_vec")[0]), EQ(D.ip.view(s2, e.args[1], "u"), adr), EQ(D.ip.view(s2, e.args[2], "u"), port), EQ(D.ip.view(s2, e.args[3], "u"), node)], fn=e.fn, line=e.line, what="the connection does not go to the announced control endpoint with the announced node id (%s)" % tag, key="connect-args-" + tag)
                for e in ann:
                    chk.ob(R + ".announce.args", s2, [EQ(e.args[0].e, D.ctx), EQ(D.ip.view(s2, e.args[1], "u"), adr), EQ(D.ip.view(s2, e.args[2], "u"), port), EQ(D.ip.view(s2, e.args[3], "u"), node), EQ(e.args[4].e, buf + H), EQ(D.ip.view(s2, e.args[5], "u"), plen)], fn=e.fn, line=e.line, what="the announce callback is not given the announcement (%s)" % tag, key="announce-args-" + tag)
                if known:
                    mode = val(D.ip, State(), conn, "rmc_connection", "mode").e
                    for s3, est in splits(s2, EQ(mode, CONNECTED)):
                        if not est and not s3.try_assume([EQ(mode, CONNECTING)]): continue
                        for s4, ann0 in splits(s3, EQ(pid, 0)):
                            if est and not ann0: continue
                            q = acts(s4, after, D)
                            chk.fact(R + (".again" if ann0 else ".early"), s4, not q, fn=fn, line=q[0].line if q else None, what="%s from a publisher that is %s has an effect: %s" % ("an announcement" if ann0 else "data", "connected" if est else "still connecting", (q[0].name or "a store") if q else ""), key="known-%d-%d" % (est, ann0))
                        if est:
                            chk.fact(R + ".again", s3, not con and not ann, fn=fn, what="a datagram from an established publisher makes a new subscription", key="again")
                    continue
                for s3, ann0 in splits(s2, EQ(pid, 0)):
                    if not ann0:
                        q = acts(s3, after, D)
                        chk.fact(R + ".unsubscribed", s3, not q, fn=fn, line=q[0].line if q else None, what="data from a publisher that is not subscribed to has an effect: %s" % ((q[0].name or "a store") if q else ""), key="unsubscribed"); continue
                    na += 1
                    cb = val(D.ip, State(), D.ctx, SC, "announce_cb").e
                    for s4, has in splits(s3, NE(cb, 0)):
                        chk.fact(R + ".announce.once", s4, len(ann) == (1 if has else 0), fn=fn, what="an announcement invokes the announce callback %d times" % len(ann), key="announce-once")
                        if not has: chk.fact(R + ".connect", s4, len(con) == 1, fn=fn, what="an announcement makes %d connections although nothing objects" % len(con), key="connect-free"); continue
                        if not ann: continue
                        for s5, v in evals(s4, lambda q: D.ip.view(q, ann[-1].ret, "u")):
                            for s6, yes in splits(s5, NE(v, 0)):
                                chk.fact(R + ".connect", s6, len(con) == (1 if yes else 0), fn=fn, what="an announcement the callback %s makes %d connections" % ("agrees to" if yes else "turns down", len(con)), key="connect-%d" % yes)
                        for e in con: chk.fact(R + ".connect.order", s4, after.index(e) > after.index(ann[-1]), fn=e.fn, line=e.line, what="the connection is made before the callback agreed", key="order")
    chk.fact(R + ".present", State(), n > 0 and na > 0, fn=fn, what="announcements are never seen", key="present")
    lookup(chk)
    complete(chk)
def s2_rc(s, rc): return rc

def lookup(chk):
    """what the address lookup answers: explicit vector"""
    fn = "rmc_conn_find_by_address"; R = "S06.lookup"
    M = chk.M; n = 0
    for modes in itertools.product((CLOSED, CONNECTING, CONNECTED), repeat=2):
        X = Sub(chk, slots=2, modes=modes); a = S(new_sym("address", 0, (1 << 32) - 1)); p = S(new_sym("port", 0, 65535))
        for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.cv), V(32, a), V(16, p)], X.st.fork())):
            n += 1
            for i in range(2):
                for s1, e in evals(s, lambda q: (vale(X.ip, q, X.conn(i), "rmc_connection", "remote_address", "u"), vale(X.ip, q, X.conn(i), "rmc_connection", "remote_port", "u"))):
                    for s2, hit in splits(s1, EQ(x.e, X.conn(i))):
                        if hit:
                            chk.ob(R + ".right", s2, [EQ(e[0], a), EQ(e[1], p)], fn=fn, what="a lookup by address answers a connection of another endpoint", key="right")
                            chk.fact(R + ".open", s2, modes[i] != CLOSED, fn=fn, what="a lookup by address answers a connection that is closed", key="open")
                        elif modes[i]:
                            for s3, none in splits(s2, EQ(x.e, 0)):
                                t = s3.fork()
                                if none and t.try_assume([EQ(e[0], a), EQ(e[1], p)]) and t.facts.feasible():
                                    chk.fact(R + ".missed", t, False, fn=fn, what="a lookup by address misses an open connection to that endpoint", key="missed")
    chk.fact(R + ".checked", State(), n > 0, fn=fn, what="the lookup never answers", key="checked")

def left_over(ip, s, name, args, r):
    """bytes still queued, as rmc_conn_process_tcp_write reports them"""
    if len(args) > 1: ip.store(s, args[1].e, V(32, S(new_sym("left#%d" % uniq(), 0, 0xFF78))), 4)
def complete(chk):
    """a connection that completes becomes an empty, reported subscription"""
    R = "S06.complete"; M = chk.M; fn = "rmc_sub_write"; n = 0
    for i, pad in ((0, 0), (1, 0), (1, FAR)):
        X = Sub(chk, slots=2, modes=[CONNECTING, CONNECTED] if i == 0 else [CONNECTED, CONNECTING], pad=pad)
        # whatever was left in the publisher slot
        for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(i)), V(64, S(ptr_sym("op_res", True, None, "base")))], X.st.fork())):
            cb = [e for e in s.events() if e.kind == "cb" and e.name == "subscription_complete_cb"]
            set_ = val(X.ip, State(), X.ctx, SC, "subscription_complete_cb").e
            for s1, md in evals(s, lambda q: vale(X.ip, q, X.conn(i), "rmc_connection", "mode", "u")):
                for s2, est in splits(s1, EQ(md, CONNECTED)):
                    for s3, has in splits(s2, NE(set_, 0)):
                        chk.fact(R + ".once", s3, len(cb) == (1 if est and has else 0), fn=fn, what="%s connection is reported %d times" % ("a completed" if est else "a failed", len(cb)), key="once-%d" % est)
                    if est:
                        n += 1
                        for f, t in (("received_pid", "sub_packet_list"), ("received_interval", "sub_pid_interval_list")):
                            got, bad = rdlist(chk, X.ip, s2, X.pub(i) + M.member("sub_publisher", f)[0], t)
                            chk.fact(R + ".empty", s2, not bad and not got, fn=fn, what="a new subscription does not start empty (%s)" % f, key="empty-" + f)
                        for f in ("max_pid_ready", "max_pid_received"):
                            chk.ob(R + ".fresh", s2, EQ(vale(X.ip, s2, X.pub(i), "sub_publisher", f), 0), fn=fn, what="a new subscription starts with a left-over %s" % f, key="fresh-" + f)
                        chk.ob(R + ".ok", s2, EQ(X.ip.view(s2, x, "s"), 0), fn=fn, what="a completed connection is reported as an error", key="ok")
                        for e in cb:
                            c = X.conn(i)
                            chk.ob(R + ".args", s2, [EQ(e.args[0].e, X.ctx), EQ(X.ip.view(s2, e.args[1], "u"), vale(X.ip, s2, c, "rmc_connection", "remote_address", "u")), EQ(X.ip.view(s2, e.args[2], "u"), vale(X.ip, s2, c, "rmc_connection", "remote_port", "u")), EQ(X.ip.view(s2, e.args[3], "u"), vale(X.ip, s2, c, "rmc_connection", "node_id", "u"))], fn=e.fn, line=e.line, what="the completed subscription is reported with another publisher's identity", key="args")
                            for f in ("max_pid_ready", "max_pid_received"):
                                chk.ob(R + ".fresh", s2, EQ(at(X.ip, s2, e, X.pub(i), "sub_publisher", f), 0), fn=e.fn, line=e.line, what="a subscription is reported before it was set up", key="early-" + f)
                            chk.ob(R + ".open", s2, EQ(at(X.ip, s2, e, c, "rmc_connection", "mode"), CONNECTED), fn=e.fn, line=e.line, what="a subscription is reported before it is connected", key="early")
                    else:
                        chk.ob(R + ".failed", s2, [EQ(md, CLOSED), NE(X.ip.view(s2, x, "s"), 0)], fn=fn, what="a connection attempt that failed is not closed and reported", key="failed")
            o = 1 - i
            chk.ob(R + ".other", s, EQ(vale(X.ip, s, X.conn(o), "rmc_connection", "mode", "u"), CONNECTED), fn=fn, what="completing a connection affects another one", key="other")
        # other subscriptions: an established one is not reported again
        Y = Sub(chk, slots=2, modes=[CONNECTED, CONNECTED], pad=pad, opaque={"rmc_conn_process_tcp_write": opq([0, anyerr], effect=left_over)})
        for s, x in bad_ends(chk, R, fn, chk.run(Y.ip, fn, [V(64, Y.ctx), VC(16, Y.ix(i)), NULL], Y.st.fork())):
            cb = [e for e in s.events() if e.kind == "cb" and e.name == "subscription_complete_cb"]
            chk.fact(R + ".again", s, not cb, fn=fn, what="an established subscription is reported as completed again", key="again")
            chk.ob(R + ".keep", s, [EQ(vale(Y.ip, s, Y.pub(i), "sub_publisher", f), vale(Y.ip, Y.st, Y.pub(i), "sub_publisher", f)) for f in ("max_pid_ready", "max_pid_received")], fn=fn, what="writing to an established subscription resets it", key="keep")
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="no connection ever completes", key="present")

# ------------------------------------------------------------------------------------------------ S07
def ready_model(chk):
    t = lt(chk.M, "sub_packet_list")
    def f(ip, st, I, name, args):
        out = []
        for k in (0, 1):
            s = st.fork(); n = C(0)
            if k:
                n = S(new_sym("newly#%d" % uniq(), 1, 1 << 20)); L = args[1].e
                old = ip.view(s, ip.load(s, L + t.count, 4), "u")
                if not s.try_assume([LE(old, 1 << 30)]): continue
                ip.store(s, L + t.count, V(32, s.norm(old + n)), 4)
                ot = ip.load(s, L + t.tail, 8, hint="p"); nt = S(ptr_sym("tail#%d" % uniq(), False, t.node, "ptr"))
                s.define(NE(nt, ot.e)); ip.store(s, L + t.tail, V(64, nt), 8)
                h = ip.load(s, L + t.head, 8, hint="p")
                if s.truth(EQ(h.e, 0)) is not False: ip.store(s, L + t.head, V(64, S(ptr_sym("head#%d" % uniq(), False, t.node, "ptr"))), 8)
                o, m = chk.M.member("sub_publisher", "max_pid_ready")
                ip.store(s, args[0].e + o, V(64, S(new_sym("maxready#%d" % uniq(), 1, 1 << 62))), 8)
            s.event("opq", name, args, None, x=dict(newly=n))
            r = None
            if I["ty"] not in ("void", "v"):
                y = new_sym("ret#%d" % uniq(), 0, 1 << 31); SYMS[y].taint = "result of a changed sub_process_received_packets"; r = V(int(I["ty"][1:]), S(y))
            out.append(("ret", s, r))
        return out
    return f

def told(chk, R, ip, s, ctx, ev, fn, chan, strict=True):
    cb = val(ip, State(), ctx, SC, "packet_ready_cb").e
    n = 0
    pr = [e for e in ev if e.kind == "opq" and e.name == "sub_process_received_packets"]
    pc = [e for e in ev if e.kind == "cb" and e.name == "packet_ready_cb"]
    for e in pc:
        n += 1
        before = [q for q in pr if ev.index(q) < ev.index(e) and q.x["newly"].t]
        prev = [q for q in pc if ev.index(q) < ev.index(e)]
        if prev: before = [q for q in before if ev.index(q) > ev.index(prev[-1])]
        chk.fact(R + ".spurious." + chan, s, bool(before), fn=e.fn, line=e.line, what="the packet-ready callback is invoked although nothing became ready", key="spurious-" + chan)
        chk.ob(R + ".args." + chan, s, EQ(e.args[0].e, ctx), fn=e.fn, line=e.line, what="the packet-ready callback gets another context", key="args-" + chan)
    for q in pr:
        if not q.x["newly"].t: continue
        later = [e for e in pc if ev.index(e) > ev.index(q)]
        for s1, has in splits(s, NE(cb, 0)):
            if has and (strict or later): chk.fact(R + ".told." + chan, s1, bool(later), fn=q.fn, line=q.line, what="packets became ready and the application is not told", key="told-" + chan)
    return n

def S07(chk):
    M = chk.M; R = "S07"; fn = "rmc_sub_read"
    chk.need("rmc_sub_read", "sub_process_received_packets")
    chk.assume += [ASSUME_CB, ASSUME_RING, "a zero-length datagram counts as an exhausted socket, as the code documents"]
    D = Dgram(chk, ready=ready_model(chk)); n = 0; late = False; drained = 0
    for k, s, x in D.outs:
        ev = s.events(); rcs = [i for i, e in enumerate(ev) if e.kind == "sys" and e.name == "recvfrom"]
        if any(e.kind == "cb" and e.name == "packet_ready_cb" and rcs and i > rcs[-1] and not ev[rcs[-1]].x["ok"] for i, e in enumerate(ev)): late = True
    for k, s, x in D.outs:
        if k == "fault": chk.fact(R + ".fault", s, False, what="reading can fault: %s" % x, key="fault"); continue
        if k not in ("ret", "back"): continue
        ev = s.events(); rcs = [i for i, e in enumerate(ev) if e.kind == "sys" and e.name == "recvfrom"]
        if rcs:
            # the last datagram's own events (earlier ones were checked on their own iteration)
            n += told(chk, R, D.ip, s, D.ctx, ev[rcs[-1]:], fn, "mcast", strict=not (late and k == "back"))
            rc = ev[rcs[-1]]
            if k == "back" and not rc.x["ok"]:
                for s1, intr in splits(s, EQ(rc.x["errno"], 4)):
                    if not intr: chk.fact(R + ".error", s1, False, fn=fn, line=rc.line, what="reading goes on after the socket reported an error or had nothing left", key="recv-again")
        if k != "ret": continue
        if not rcs:
            for s1, open_ in splits(s, NE(D.ip.view(s, V(32, D.fd, "s"), "s"), -1)):
                if open_: chk.fact(R + ".drain", s1, False, fn=fn, what="the multicast channel is not read", key="drain-none")
            continue
        rc = ev[rcs[-1]]; drained += 1
        for s1, r in evals(s, lambda q: D.ip.view(q, x, "s")):
            if not rc.x["ok"]:
                for s2, agn in splits(s1, EQ(rc.x["errno"], 11)):
                    if agn: chk.ob(R + ".exhausted", s2, EQ(r, 0), fn=fn, what="an exhausted socket is reported as an error", key="exhausted")
                    else: chk.ob(R + ".error", s2, NE(r, 0), fn=fn, what="a receive error is reported as success", key="recv-error")
                continue
            got = D.got(s1, rc)
            for s2, some in splits(s1, GE(got, 1)):
                if not some: chk.ob(R + ".exhausted", s2, EQ(r, 0), fn=fn, what="an exhausted socket is reported as an error", key="exhausted"); continue
                t = s2.fork()
                if t.try_assume([GE(got, D.field(s2, rc, "payload_len") + D.H)]) and t.facts.feasible():
                    chk.fact(R + ".drain", t, False, fn=fn, what="reading stops after a well-formed datagram although more may be pending", key="drain")
    chk.fact(R + ".present.mcast", State(), n > 0 or late, fn=fn, what="the application is never told about ready packets", key="present-mcast")
    chk.fact(R + ".present.drain", State(), drained > 0, fn=fn, what="the multicast channel is never read", key="present-drain")
    # control channel: the handler itself, or the read entry point after it
    m = 0; deferred = []
    for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
        if kind != "packet": continue
        op = dict(cmds.OPAQUE); op["sub_process_received_packets"] = ready_model(chk)
        H = cmds.Handler(chk, role, h, op); hn = 0
        for k, s, x in H.run():
            if k != "ret": continue
            ev = s.events(); hn += told(chk, R, H.ip, s, H.ctx, ev, h, "tcp")
            if calls(s, "sub_packet_received") and not calls(s, "sub_process_received_packets"): deferred.append(h)
        m += hn
    if deferred:
        # packets are only made ready once the whole input was handled
        ctx = fresh_obj("ctx", SC); ip = chk.interp(field_inv=inv(), opaque={"rmc_conn_tcp_read": opq([0]), "sub_process_received_packets": ready_model(chk), "rmc_sub_close_connection": opq([0])})
        st = State(); i = S(new_sym("s_ind", 0, 0x7FFB)); st.assume(LT(i, val(ip, st, ctx, SC, "conn_vec.size").e))
        args, by = chk.arg_syms(fn, ctx=V(64, ctx), s_ind=V(16, i))
        for k, s, x in chk.run(ip, fn, args, st):
            if k == "ret": m += told(chk, R, ip, s, ctx, s.events(), fn, "tcp-read")
    chk.fact(R + ".present.tcp", State(), m > 0, fn=fn, what="the application is never told about ready packets", key="present-tcp")

# ------------------------------------------------------------------------------------------------ S04
def oldest(st, ts):
    """[(state, smallest receive time)]"""
    if not ts: return [(st, None)]
    out = [(st, ts[0])]
    for t in ts[1:]:
        nx = []
        for s, m in out:
            for s2, le in splits(s, LE(m, t)): nx.append((s2, m if le else t))
        out = nx
    return out
def oldest_all(st, lists):
    out = [(st, [])]
    for l in lists: out = [(s2, ms + [m]) for s, ms in out for s2, m in oldest(s, l)]
    return out
def scheduled(chk, R, X, s, slots, fn, why):
    """every publisher with pending intervals is on the list once, sorted by its oldest one"""
    L, bad = X.acks(s)
    chk.fact(R + ".list", s, not bad, fn=fn, what="the list of pending acknowledgements is damaged: %s" % bad, key="list")
    if bad: return
    if any(l.t for l in L): chk.unsure(R, fn, "entry of the acknowledgement list", "not a definite index"); return
    L = [l.c - X.pad for l in L]
    iv = []
    for i in range(slots):
        got, b = X.intervals(s, i)
        chk.fact(R + ".intervals", s, not b, fn=fn, what="a list of pending intervals is damaged: %s" % b, key="intervals")
        if b: return
        iv.append(got)
    for i in range(slots):
        chk.fact(R + ".once", s, L.count(i) == (1 if iv[i] else 0), fn=fn, what="%s, a publisher with %s is scheduled %d times" % (why, "unacknowledged packets" if iv[i] else "nothing to acknowledge", L.count(i)), key="once-%d" % bool(iv[i]))
    if sorted(set(L)) != sorted(L) or any(not 0 <= i < slots or not iv[i] for i in L): return
    if len(L) < 2: return
    for s1, ms in oldest_all(s, [[q[2] for q in iv[i]] for i in range(slots)]):
        for a, b in zip(L, L[1:]):
            chk.ob(R + ".order", s1, LE(ms[a], ms[b]), fn=fn, what="%s, publishers are not scheduled in order of their oldest unacknowledged packet" % why, key="order")
def sorted_entry(X, order):
    """entry states in which the scheduled publishers really are in order"""
    st = X.st; out = []
    for s, ms in oldest_all(st.fork(), [[q[2] for q in iv] for iv in X.ivl]):
        if s.try_assume([LE(ms[a], ms[b]) for a, b in zip(order, order[1:])]) and s.facts.feasible(): out.append((s, ms))
    return out

def S04(chk):
    M = chk.M; R = "S04"; big = chk.tier != "quick"
    chk.need("rmc_sub_packet_received", "sub_oldest_unacknowledged_packet", "rmc_sub_timeout_process", "rmc_sub_close_connection")
    chk.assume += [ASSUME_SHAPE + " (up to 3 publishers with up to 3 intervals)", ASSUME_CB, "the clock does not go backwards", "packet ids and times stay below 2^62", "how an id is entered into the intervals is decided by S03"]
    fn = "sub_oldest_unacknowledged_packet"
    for m in range(5):
        X = Sub(chk, ivs=m, slots=1)
        for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.pub(0))], X.st.fork())):
            for s1, ms in oldest(s, [q[2] for q in X.iv]):
                chk.ob(R + ".oldest", s1, EQ(X.ip.view(s1, x, "u"), ms if ms is not None else C(0)), fn=fn, what="the oldest unacknowledged packet of a publisher with %d intervals is not found" % m, key="oldest")
    # a packet is received: scheduled once, in order
    fn = "rmc_sub_packet_received"; slots = 3
    cfgs = [(0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0), (0, 2, 1)] + ([(2, 2, 1), (3, 0, 0), (0, 2, 2), (2, 1, 1)] if big else [])
    for cfg in cfgs:
        for who in range(slots) if big or sum(cfg) < 3 else (0,):
            if who and cfg[who] == cfg[0] and not big: continue
            order0 = [i for i in range(slots) if cfg[i]]
            for order, pad in [(o, 0) for o in itertools.permutations(order0)] + ([(tuple(order0), FAR)] if cfg in ((0, 1, 0), (1, 1, 0)) else []):
                X = Sub(chk, ivs=cfg, who=who, slots=slots, acks=order, pad=pad)
                pid = S(new_sym("pid", 1, 1 << 62))
                for st, ms in sorted_entry(X, order):
                    todo = [st]
                    for f, l, t in X.ivl[who]:       # not received before
                        nx = []
                        for a in todo:
                            for c in (LE(pid + 1, f), GE(pid, l + 1)):
                                b = a.fork()
                                if b.try_assume([c]) and b.facts.feasible(): nx.append(b)
                        todo = nx
                    for st1 in todo:
                        args, by = chk.arg_syms(fn, ctx=V(64, X.ctx), index=VC(16, X.ix(who)), pid=V(64, pid), payload=V(64, cell("payload")), payload_len=V(16, S(new_sym("payload_len", 0, 65535))))
                        for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, args, st1)):
                            ts = [q[2] for iv in X.ivl for q in iv]; nows = [s.norm(e.ret.e) for e in s.events() if e.kind == "now"]
                            if not s.try_assume([GE(n, t) for n in nows for t in ts] + [GE(b, a) for a, b in zip(nows, nows[1:])] + [GE(n, 1) for n in nows]): continue
                            scheduled(chk, R + ".receive", X, s, slots, fn, "after a packet was received")
    # time passes
    fn = "rmc_sub_timeout_process"
    for cfg in [(0, 0), (1, 0), (1, 1), (2, 1)] + ([(2, 2), (3, 1)] if big else []):
        for modes in ((CONNECTED, CONNECTED),):
            order0 = [i for i in range(2) if cfg[i]]
            for order, pad in [(o, 0) for o in itertools.permutations(order0)] + ([(tuple(order0), FAR)] if cfg == (1, 1) else []):
                X = Sub(chk, ivs=cfg, slots=2, acks=order, pad=pad, opaque={"rmc_sub_write_interval_acknowledgement": ack_model})
                to = val(X.ip, X.st, X.ctx, SC, "ack_timeout").e; X.st.assume(LE(to, 1 << 61))
                for st, ms in sorted_entry(X, order):
                    for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx)], st)):
                        timed(chk, R + ".timeout", X, s, cfg, ms, to, fn)
                        refused = any(e.kind == "opq" and e.name == "rmc_sub_write_interval_acknowledgement" and not e.x["ok"] for e in s.events())
                        for s1, r in evals(s, lambda z: X.ip.view(z, x, "s")): chk.ob(R + ".timeout.reported", s1, NE(r, 0) if refused else EQ(r, 0), fn=fn, what="an acknowledgement that could not be queued is not reported" if refused else "processing the ack timeout fails although every acknowledgement was queued", key="reported-%d" % refused)
    closing(chk, R + ".close")
    D = Dgram(chk); n = 0
    for k, s, x in D.outs:
        L = D.last(s) if k in ("ret", "back") else None
        if L is None: continue
        n += sum(1 for e in L[1] if e.kind == "opq" and e.name == "rmc_sub_packet_received")
        for e in L[1]:
            if e.kind == "opq" and e.name == "sub_packet_received":
                rest = [q for q in L[1][L[1].index(e):] if q.kind in ("link", "call") and q.name in ("rmc_sub_schedule_acks",) or q.kind == "link"]
                for s1, fl in evals(s, lambda q: D.ip.view(q, e.args[4], "u")):
                    for s2, yes in splits(s1, NE(fl, 0)):
                        if yes: chk.fact(R + ".mcast", s2, bool(rest), fn=e.fn, line=e.line, what="a multicast packet is recorded for acknowledgement, but its publisher is not scheduled", key="mcast") ; n += 1
    chk.fact(R + ".present.mcast", State(), n > 0, fn="rmc_sub_read", what="multicast packets are never recorded", key="present-mcast")

def ack_model(ip, st, I, name, args):
    """queue one interval: its content is noted; may be refused"""
    out = []
    M = ip.M; o1, o2 = (M.member("sub_pid_interval", f)[0] for f in ("first_pid", "last_pid"))
    f, l = (st.norm(ip.load(st, args[2].e + o, 8, mem=st.mem, peek=True).e) for o in (o1, o2))
    for ok in (True, False):
        s = st.fork(); r = VC(32, 0) if ok else anyerr(ip, s)
        s.event("opq", name, args, r, x=dict(ok=ok, first=f, last=l)); out.append(("ret", s, r))
    return out

def timed(chk, R, X, s, cfg, ms, to, fn):
    nows = [s.norm(e.ret.e) for e in s.events() if e.kind == "now"]
    if not nows: chk.unsure(R, fn, "current time", "no clock reading on the path"); return
    ts = [q[2] for iv in X.ivl for q in iv]
    if not s.try_assume([GE(n, t) for n in nows for t in ts] + [GE(b, a) for a, b in zip(nows, nows[1:])]): return
    snt = [e for e in s.events() if e.kind == "opq" and e.name == "rmc_sub_write_interval_acknowledgement"]
    for e in snt: chk.fact(R + ".who", s, any(s.entails(EQ(e.args[1].e, X.conn(i))) for i in range(len(cfg))) and s.entails(EQ(e.args[0].e, X.ctx)), fn=e.fn, line=e.line, what="an acknowledgement is queued on another connection", key="who")
    scheduled(chk, R, X, s, len(cfg), fn, "after the ack timeout was processed")
    for i in range(len(cfg)):
        if not cfg[i]: continue
        mine = [e for e in snt if s.entails(EQ(e.args[1].e, X.conn(i)))]
        left, bad = X.intervals(s, i)
        if bad: continue
        queued = [(e.x["first"], e.x["last"]) for e in mine if e.x["ok"]]; failed = [e for e in mine if not e.x["ok"]]
        own = [(s.norm(q[0]), s.norm(q[1])) for q in X.ivl[i]]
        chk.fact(R + ".content", s, all(q in own for q in queued) and len(set(queued)) == len(queued), fn=fn, line=mine[0].line if mine else None, what="other packets are acknowledged than the publisher's pending intervals, or an interval is acknowledged twice", key="content")
        want = [tuple(s.norm(z) for z in q) for q in X.ivl[i] if (s.norm(q[0]), s.norm(q[1])) not in queued]
        chk.fact(R + ".pending", s, left == want, fn=fn, what="an interval %s" % ("stays pending although it was queued" if len(left) > len(want) else "is no longer pending although it was not queued"), key="pending-%d" % (len(left) > len(want)))
        for s1, due in splits(s, LE(ms[i] + to, nows[0])):
            if due:
                chk.fact(R + ".due", s1, bool(failed) or len(queued) == len(own), fn=fn, what="the ack timeout has elapsed, but not all pending intervals are queued", key="due")
            else:
                for s2, later in splits(s1, LE(ms[i] + to, nows[-1])):
                    if not later: chk.fact(R + ".early", s2, not mine, fn=fn, line=mine[0].line if mine else None, what="a publisher whose ack timeout has not elapsed is acknowledged", key="early")

def closing(chk, R):
    """a publisher that is gone leaves the list; the others stay"""
    fn = "rmc_sub_close_connection"
    for k, far in [(k, 0) for k in range(4)] + [(2, FAR)]:
        for who in range(3):
            order = [i for i in (1, 0, 2)][:k]
            X = Sub(chk, ivs=[1 if i in order else 0 for i in range(3)], who=who, slots=3, acks=order, pad=far, opaque={"rmc_conn_close_connection": opq([0, anyerr])})
            for s, x in bad_ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(who))], X.st.fork())):
                L, bad = X.acks(s)
                c = calls(s, "rmc_conn_close_connection"); ok = c and s.entails(EQ(c[-1].ret.e, 0))
                want = [i for i in order if i != who or not ok]
                chk.fact(R + ".unscheduled", s, not bad and L == [C(X.ix(i)) for i in want], fn=fn, what="closing a connection leaves the publishers %s scheduled where %s should be" % (L, want), key="unscheduled")
                for i in range(3):
                    if i == who: continue
                    got, b = X.intervals(s, i)
                    chk.fact(R + ".others", s, not b and got == [tuple(s.norm(z) for z in q) for q in X.ivl[i]], fn=fn, what="closing a connection loses pending intervals of another publisher", key="others")

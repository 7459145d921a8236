"""P01-P09: the publisher's packet bookkeeping, on explicit small publisher contexts."""
from rules.shapes import *
from rules.subq import PIDMAX
from rules import cmds
import itertools

PC = "rmc_pub_context"
TSMAX = 1 << 61
FAR = 256              # a slot index that does not fit in a byte
def free_slots(ip, st, M, conns, n):
    """slots 0..n-1 of a connection table are free"""
    for i in range(n):
        c = conns + i * M.size("rmc_connection")
        for f, v in (("mode", VC(32, CLOSED)), ("descriptor", V(32, C(-1), "s")), ("connection_index", VC(16, i)), ("action", VC(16, 0)), ("node_id", VC(32, 0)), ("remote_address", VC(32, 0)), ("remote_port", VC(16, 0))): setf(ip, st, c, "rmc_connection", f, v)

def vector(ip, st, M, cv, conns, modes, tag="", pad=0):
    """an explicit connection vector: slot i is in modes[i], with arbitrary endpoint and action when open"""
    setf(ip, st, cv, "rmc_connection_vector", "connections", conns); setf(ip, st, cv, "rmc_connection_vector", "size", V(32, C(pad + len(modes))))
    desc = []; free_slots(ip, st, M, conns, pad)
    for i, md in enumerate(modes):
        c = conns + (pad + i) * M.size("rmc_connection")
        setf(ip, st, c, "rmc_connection", "mode", V(32, C(md))); setf(ip, st, c, "rmc_connection", "connection_index", VC(16, pad + i))
        d = S(new_sym("fd%s%d" % (tag, i), 0, 1 << 20)) if md else C(-1); desc.append(d); setf(ip, st, c, "rmc_connection", "descriptor", V(32, d, "s"))
        for f in ("node_id", "remote_address", "remote_port", "action"):
            w = M.member("rmc_connection", f)[1]["size"] * 8
            setf(ip, st, c, "rmc_connection", f, V(w, S(new_sym("%s%s%d" % (f, tag, i), 0, 3 if f == "action" else (1 << w) - 1))) if md else VC(w, 0))
    op_ = [i for i, m in enumerate(modes) if m]
    setf(ip, st, cv, "rmc_connection_vector", "max_connection_ind", VC(16, pad + op_[-1] if op_ else NIL))
    setf(ip, st, cv, "rmc_connection_vector", "active_connection_count", V(32, C(len(op_))))
    return desc

def closes(M):
    """effect of the opaque rmc_conn_close_connection on the connection it closes (what K03 decides)"""
    def f(ip, st, name, args, r):
        if r is None or not (r.e.c == 0 and not r.e.t): return
        cv = st.norm(args[0].e); conns = ip.load(st, cv + M.member("rmc_connection_vector", "connections")[0], 8, hint="p").e
        c = st.norm(conns + ip.view(st, args[1], "u") * M.size("rmc_connection"))
        for k, v in (("mode", 0), ("descriptor", -1), ("remote_address", 0), ("remote_port", 0), ("node_id", 0), ("action", 0)):
            o, m = M.member("rmc_connection", k); ip.store(st, c + o, V(8 * m["size"], C(v if v >= 0 else (1 << 8 * m["size"]) - 1)), m["size"])
    return f
def conn_close(M): return {"rmc_conn_close_connection": opq([0], effect=closes(M))}

_ud = {}
def data_user_data(chk):
    """the user data the library itself attaches to queued data"""
    if chk in _ud: return _ud[chk]
    ip = shape_interp(chk, None, inv()); st = State(); ctx = fresh_obj("ctx", PC); M = chk.M
    for l in ("queued", "inflight", "subscribers"):
        o, m = M.member(PC, "pub_ctx." + l)
        st, _ = mklist(chk, ip, st, ctx + o, "pub_sub_list" if l == "subscribers" else "pub_packet_list", [])
    r = None
    args, by = chk.arg_syms("rmc_pub_queue_packet", ctx=V(64, ctx), payload=V(64, cell("p")), payload_len=VC(16, 4), announce_flag=VC(8, 0))
    for k, s, x in chk.run(ip, "rmc_pub_queue_packet", args, st):
        if k != "ret": continue
        ns, bad = rdlist(chk, ip, s, ctx + M.member(PC, "pub_ctx.queued")[0], "pub_packet_list")
        if len(ns) == 1:
            v = s.norm(ip.load(s, content(ip, s, lt(M, "pub_packet_list"), ns[0]) + M.member("pub_packet", "pkg_user_data")[0], 8, mem=s.mem, peek=True).e)
            if not v.t: r = v
    _ud[chk] = r
    return r

class Pubc:
    """publisher context with `queued` data packets waiting, one sent packet per entry of `held` (set of slots that lack it)"""
    def __init__(s, chk, queued=0, held=(), slots=2, modes=None, opaque=None, tracked=None, free_=None, maxpid=None, pad=0):
        s.pad = pad
        M = chk.M; s.chk = chk; s.M = M; s.modes = modes or [CONNECTED] * slots; slots = s.slots = len(s.modes)
        s.ip = shape_interp(chk, opaque, inv()); st = s.st = State(); ip = s.ip
        s.ctx = fresh_obj("ctx", PC)
        if pad: ip.maxunroll = max(ip.maxunroll, pad + 12)
        s.subs = cell("subscribers", "pub_subscriber", M.size("pub_subscriber") * (pad + slots)); s.conns = cell("connections", "rmc_connection", M.size("rmc_connection") * (pad + slots))
        setf(ip, st, s.ctx, PC, "subscribers", s.subs)
        s.cv = s.ctx + M.member(PC, "conn_vec")[0]; s.desc = vector(ip, st, M, s.cv, s.conns, s.modes, pad=pad)
        s.pc = s.ctx + M.member(PC, "pub_ctx")[0]
        s.Q, s.I, s.L = (s.pc + M.member("pub_context", f)[0] for f in ("queued", "inflight", "subscribers"))
        s.tracked = [i for i in range(slots) if s.modes[i]] if tracked is None else list(tracked)
        s.held = [frozenset(h) for h in held]
        ud = data_user_data(chk)
        s.rec = {}; s.infl = []; s.que = []; last = None
        def pack(nm, sent, refs):
            nonlocal last
            a = cell(nm, "pub_packet", M.size("pub_packet"))
            d = dict(pid=S(new_sym("pid_" + nm, 1, PIDMAX)), payload=cell("payload_" + nm), payload_len=S(new_sym("len_" + nm, 0, 0xFF20)), pkg_user_data=ud if ud is not None else S(new_sym("ud_" + nm, 0, 1 << 40)),
                     send_ts=S(new_sym("sent_" + nm, 0, TSMAX)) if sent else C(0), ref_count=C(refs))
            for k, v in d.items(): put(ip, st, a + M.member("pub_packet", k)[0], V(8 * M.member("pub_packet", k)[1]["size"], v), M.member("pub_packet", k)[1]["size"])
            if last is not None: st.assume(GE(d["pid"], last["pid"] + 1))
            if last is not None and sent: st.assume(GE(d["send_ts"], last["send_ts"]))
            last = d; s.rec[s.st.norm(a)] = d
            return a, d
        s.infl = [pack("sent%d" % i, True, len(h)) for i, h in enumerate(s.held)]
        s.que = [pack("queued%d" % i, False, 0) for i in range(queued)]
        s.next_pid = S(new_sym("next_pid", 1, PIDMAX + 1))
        if last is not None: st.assume(GE(s.next_pid, last["pid"] + 1))
        setf(ip, st, s.pc, "pub_context", "next_pid", V(64, s.next_pid))
        def mk(L, packs, nm):
            s.st, n = mklist(chk, ip, s.st, L, "pub_packet_list", [V(64, a) for a, d in reversed(packs)], names=nm); return n
        s.nodes = {}
        qn = mk(s.Q, s.que, "q"); n1 = mk(s.I, s.infl, "i")
        for ns, packs in ((qn, s.que), (n1, s.infl)):
            for n, (a, d) in zip(ns, reversed(packs)):
                if any(m["name"] == "parent_node" for m in M.structs["pub_packet"]["members"]): put(ip, s.st, a + M.member("pub_packet", "parent_node")[0], V(64, n))
        s.nodes["queued"] = qn; s.nodes["inflight"] = n1
        for i in range(slots):
            if not s.modes[i] and i not in s.tracked: continue
            u = s.sub(i)
            setf(ip, s.st, u, "pub_subscriber", "context", V(64, s.pc)); setf(ip, s.st, u, "pub_subscriber", "user_data", V(64, s.conn(i)))
            s.nodes[i] = mk(u + M.member("pub_subscriber", "inflight")[0], [p for p, h in zip(s.infl, s.held) if i in h], "s%d" % i)
        s.st, s.nodes["subs"] = mklist(chk, ip, s.st, s.L, "pub_sub_list", [V(64, s.sub(i)) for i in s.tracked])
        s.ud = s.st.norm(ip.load(s.st, s.ctx + M.member(PC, "user_data")[0], 8).e)
        s.has_free = val(ip, s.st, s.ctx, PC, "payload_free").e
    def ix(s, i): return s.pad + i
    def conn(s, i): return s.conns + s.ix(i) * s.M.size("rmc_connection")
    def sub(s, i): return s.subs + s.ix(i) * s.M.size("pub_subscriber")
    def lst(s, st, which):
        """(packets in ascending id order, problem)"""
        L = {"queued": s.Q, "inflight": s.I}.get(which)
        if L is None: L = s.sub(which) + s.M.member("pub_subscriber", "inflight")[0]
        ns, bad = rdlist(s.chk, s.ip, st, L, "pub_packet_list")
        return [content(s.ip, st, lt(s.M, "pub_packet_list"), n) for n in reversed(ns)], bad
    def members(s, st):
        ns, bad = rdlist(s.chk, s.ip, st, s.L, "pub_sub_list")
        return [content(s.ip, st, lt(s.M, "pub_sub_list"), n) for n in ns], bad
    def pf(s, st, a, f, view="u"):
        off, m = s.M.member("pub_packet", f)
        v = s.ip.load(st, st.norm(a) + off, m["size"], mem=st.mem, peek=True)
        return st.norm(v.e) if m["size"] == 8 else st.norm(s.ip.view(st, v, view))
    def f(s, st, path, view="u"): return vale(s.ip, st, s.ctx, PC, path, view)

def ends(chk, R, fn, outs, what="publisher"):
    for k, s, x in outs:
        if k in ("fault", "abort"): chk.fact(R + ".ends", s, False, fn=fn, what="%s %s on a well-formed %s" % (fn, "can fault: %s" % (x,) if k == "fault" else "stops the process", what), key="ends")
        else:
            for e in s.events():
                if e.kind in ("uaf", "double_free"): chk.fact(R + ".uaf", s, False, fn=e.fn, line=e.line, what="%s touches memory after releasing it" % fn, key="uaf")
    return [(s, x) for k, s, x in outs if k == "ret"]

def same(s, got, want): return [s.norm(q) for q in got] == [s.norm(q) for q in want]
def queues(chk, R, X, s, fn, queued, inflight, held, what, subs=True):
    """the three kinds of packet lists hold exactly the given packets in ascending id order"""
    q, b = X.lst(s, "queued")
    chk.fact(R + ".queued", s, not b and same(s, q, queued), fn=fn, what="%s: not exactly the packets that wait are queued, in order%s" % (what, " (%s)" % b if b else ""), key="queued")
    q, b = X.lst(s, "inflight")
    chk.fact(R + ".inflight", s, not b and same(s, q, inflight), fn=fn, what="%s: not exactly the sent, unacknowledged packets are kept%s" % (what, " (%s)" % b if b else ""), key="inflight")
    for i, want in held.items():
        q, b = X.lst(s, i)
        chk.fact(R + ".outstanding", s, not b and same(s, q, want), fn=fn, what="%s: not exactly the packets a subscriber lacks are outstanding for it%s" % (what, " (%s)" % b if b else ""), key="outstanding")

def given_back(chk, R, X, s, packs, fn, what, plain=(), since=0):
    """payload released once through the matching function with its length and user data, record once"""
    ev = s.events()[since:]
    for s1, custom in splits(s, NE(X.has_free, 0)):
        for a, d in packs:
            pf = [e for e in ev if e.kind == "cb" and e.name == "payload_free" and s1.entails(EQ(e.args[0].e, d["payload"]))]
            fr = [e for e in ev if e.kind == "free" and s1.entails(EQ(e.args[0].e, d["payload"]))]
            good, other = (pf, fr) if custom and a not in plain else (fr, pf)
            chk.fact(R + ".payload", s1, len(good) == 1 and not other, fn=fn, what="%s: the payload is released %d times with the matching function and %d times otherwise" % (what, len(good), len(other)), key="payload")
            for e in pf:
                chk.ob(R + ".payload.args", s1, [EQ(X.ip.view(s1, e.args[1], "u"), d["payload_len"]), EQ(e.args[2].e, d["pkg_user_data"])], fn=e.fn, line=e.line, what="%s: the payload is not released with its length and the user data it was queued with" % what, key="payload-args")
            rf = [e for e in ev if e.kind == "free" and s1.entails(EQ(e.args[0].e, a))]
            chk.fact(R + ".record", s1, len(rf) == 1, fn=fn, what="%s: the packet's record is released %d times" % (what, len(rf)), key="record")
def kept(chk, R, X, s, packs, fn, what):
    ev = s.events()
    for a, d in packs:
        hit = [e for e in ev if (e.kind == "free" or (e.kind == "cb" and e.name == "payload_free")) and (s.entails(EQ(e.args[0].e, d["payload"])) or s.entails(EQ(e.args[0].e, a)))]
        chk.fact(R + ".kept", s, not hit, fn=hit[0].fn if hit else fn, line=hit[0].line if hit else None, what="%s: a packet that is still needed is released" % what, key="kept")
        if not hit:
            for k in ("pid", "payload", "payload_len"): chk.ob(R + ".content", s, EQ(X.pf(s, a, k), d[k]), fn=fn, what="%s: a packet's %s changes" % (what, k), key="content-" + k)
def no_leak(chk, R, X, s, fn, what):
    """every list element is either on a list or released"""
    live = set()
    for L, t in [(X.Q, "pub_packet_list"), (X.I, "pub_packet_list"), (X.L, "pub_sub_list")] + [(X.sub(i) + X.M.member("pub_subscriber", "inflight")[0], "pub_packet_list") for i in X.nodes if isinstance(i, int)]:
        ns, bad = rdlist(chk, X.ip, s, L, t)
        if bad: return
        live |= set(s.norm(n) for n in ns)
    for n in [m for v in X.nodes.values() for m in v] + [e.args[0].e for e in s.events() if e.kind == "alloc" and s.entails(EQ(SYMS[e.x].field, X.M.size("_pub_packet_node")))]:
        n = s.norm(n)
        fr = sum(1 for e in s.events() if e.kind == "free" and s.norm(e.args[0].e) == n)
        chk.fact(R + ".element", s, (n in live) != (fr == 1) and fr <= 1, fn=fn, what="%s: a list element is %s" % (what, "lost" if not fr else "released while in use"), key="element")

SETS = {0: [()], 1: [(), (0,), (1,), (0, 1)]}
def helds(n, slots=(0, 1)):
    """which subscribers lack each of n sent packets (every sent packet is lacked by somebody)"""
    ch = [frozenset(c) for k in range(1, len(slots) + 1) for c in itertools.combinations(slots, k)]
    return itertools.product(ch, repeat=n)
def per(X, held, packs): return {i: [a for (a, d), h in zip(packs, held) if i in h] for i in X.tracked}

# ------------------------------------------------------------------------------------------------ sending
def sends(s): return [e for e in s.events() if e.kind == "sys" and e.name == "sendmsg"]
def run_write(chk, X, st=None):
    return chk.run(X.ip, "rmc_pub_write", [V(64, X.ctx), VC(16, MCAST), V(64, C(0))], st or X.st.fork())
def announce(chk, X, st, copy, n):
    """queue an announcement with the real code; [(state, record)]"""
    out = []
    pay = cell("announcement%d" % n); ln = S(new_sym("alen%d" % n, 0, 0xFF20))
    fn = "rmc_pub_queue_announcement" if copy else "rmc_pub_queue_packet"
    args, by = chk.arg_syms(fn, ctx=V(64, X.ctx), payload=V(64, pay), payload_len=V(16, ln), announce_flag=VC(8, 1))
    before, _ = X.lst(st, "queued")
    for k, s, x in chk.run(X.ip, fn, args, st):
        if k != "ret": continue
        q, bad = X.lst(s, "queued")
        new = [a for a in q if a not in before]
        if bad or len(new) != 1: continue
        a = new[0]
        d = dict(pid=X.pf(s, a, "pid"), payload=X.pf(s, a, "payload"), payload_len=X.pf(s, a, "payload_len"), pkg_user_data=X.pf(s, a, "pkg_user_data"), send_ts=C(0))
        out.append((s, a, d, copy))
    return out
def scenarios(chk, N):
    """(context, start state, queue in sending order [(record, fields, plainly allocated)])"""
    for nq in range(N + 1):
        for na in (0, 1, 2) if nq < 2 else (0, 1):
            for copies in ((0,), (1,)) if na == 1 else (((0, 1),) if na else ((),)):
                for tr in ((), (0,), (0, 1)) if na < 2 else ((0,),):
                    for h in ((),) if not tr else ((), (frozenset(tr[:1]),)) :
                        X = Pubc(chk, queued=nq, held=h, modes=[CONNECTED if i in tr else CLOSED for i in range(2)])
                        setf(X.ip, X.st, X.ctx, PC, "traffic_suspended", VC(8, 0)); setf(X.ip, X.st, X.ctx, PC, "traffic_suspend_threshold", VC(32, 0))
                        sts = [(X.st.fork(), [])]
                        for j, c in enumerate(copies): sts = [(s2, an + [(a, d, bool(cp))]) for s, an in sts for s2, a, d, cp in announce(chk, X, s, c, j)]
                        for s, an in sts[:1] if nq else sts:
                            q, bad = X.lst(s, "queued")
                            if bad: continue
                            order = []
                            for a in q:
                                hit = [t for t in an if t[0] == a]
                                order.append(hit[0] if hit else (a, X.rec[a], False))
                            yield X, s, order, tr
def is_data(X, t): return t[1]["pid"].t or t[1]["pid"].c != 0

def transmit(chk, R, N):
    """one multicast write over an explicit queue; yields (X, s, x, start, order, tracked, sent count, failed event)"""
    for X, st, order, tr in scenarios(chk, N):
        base = len(st.events())
        for s, x in ends(chk, R, "rmc_pub_write", run_write(chk, X, st.fork())):
            sd = [e for e in s.events()[base:] if e.kind == "sys" and e.name == "sendmsg"]
            ok = [e for e in sd if e.x["ok"]]
            yield X, s, x, st, order, tr, sd, ok, base

def P04(chk):
    R = "P04"; fn = "rmc_pub_write"; M = chk.M; N = 2 if chk.tier == "quick" else 3; n = 0
    chk.need(fn, "rmc_pub_queue_packet", "pub_next_queued_packet")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (up to %d data packets and two announcements)" % N]
    for X, s, x, st, order, tr, sd, ok, base in transmit(chk, R, N):
        k = len(ok); D = X.f(st, "mcast_send_descriptor", "s"); ip = X.ip
        q, bad = X.lst(s, "queued")
        chk.fact(R + ".queue", s, not bad and same(s, q, [t[0] for t in order[k:]]), fn=fn, what="after %d of %d packets were sent, not exactly the others are still queued in the same order%s" % (k, len(order), " (%s)" % bad if bad else ""), key="queue")
        for i, e in enumerate(sd):
            n += 1
            chk.fact(R + ".stop", s, e.x["ok"] or i == len(sd) - 1, fn=e.fn, line=e.line, what="sending goes on after the network refused a packet", key="stop")
            if i >= len(order): chk.fact(R + ".more", s, False, fn=e.fn, line=e.line, what="more packets are sent than were queued", key="more"); continue
            v = e.x["iov"]
            if not v or len(v) != 2: chk.unsure(R + ".order", e.fn, "payload vector", "not sent as header and payload", e.line)
            else:
                a, d, c = order[i]
                chk.ob(R + ".order", s, [EQ(v[1][0], d["payload"]), EQ(v[1][1], d["payload_len"])], fn=e.fn, line=e.line, what="the packet sent next is not the waiting one with the lowest id", key="order")
        tried = [s1 for s1, dn in splits(s, EQ(D, -1)) if not dn]
        for s1 in tried:
            chk.fact(R + ".tried", s1, bool(sd) or not order, fn=fn, what="packets are waiting and none is sent", key="tried")
        if sd and not sd[-1].x["ok"]:
            chk.fact(R + ".reported", s, all(z is False for s1, r in evals(s, lambda t: ip.view(t, x, "s")) for _, z in splits(s1, EQ(r, 0))), fn=fn, what="a failed send is reported as success", key="reported")
        now = [e for e in s.events()[base:] if e.kind == "now"]
        for i, (a, d, c) in enumerate(order):
            if i >= k:
                kept(chk, R + ".waits", X, s, [(a, d)], fn, "a packet that was not sent")
                chk.ob(R + ".unstamped", s, EQ(X.pf(s, a, "send_ts"), X.pf(st, a, "send_ts")), fn=fn, what="a packet that was not sent gets a send time", key="unstamped")
                chk.ob(R + ".unstamped", s, EQ(X.pf(s, a, "ref_count"), X.pf(st, a, "ref_count")), fn=fn, what="a packet that was not sent is already expected to be acknowledged", key="unsent-ref")
            elif is_data(X, order[i]) and tr:
                ts = X.pf(s, a, "send_ts")
                chk.fact(R + ".stamped", s, any(s.entails(EQ(ts, e.ret.e)) for e in now), fn=fn, what="a sent packet is not stamped with the time of sending", key="stamped")
    # where a packet is queued: an announcement ahead of all data, data behind all others
    for nq in range(N + 1):
        for fn3, flag in (("rmc_pub_queue_packet", 0), ("rmc_pub_queue_packet", 1), ("rmc_pub_queue_announcement", 1)):
            if not M.defined(fn3): continue
            X = Pubc(chk, queued=nq, modes=[CONNECTED])
            for s, x in ends(chk, R, fn3, queue_run(chk, X, fn3, flag, cell("payload"), S(new_sym("len", 0, 65535)))):
                q, bad = X.lst(s, "queued"); old = [a for a, d in X.que]
                if bad or len(q) != nq + 1 or [a for a in q if a in old] != [s.norm(a) for a in old]: continue      # P01
                chk.fact(R + ".place", s, q[:-1] == old if not flag else q[1:] == old, fn=fn3, what="data is queued ahead of data accepted before it" if not flag else "an announcement is queued behind data", key="place-%d" % flag)
    # which packet is next
    for nq in range(N + 1):
        X = Pubc(chk, queued=nq, modes=[CONNECTED])
        fn2 = "pub_next_queued_packet"
        for s, x in ends(chk, R, fn2, chk.run(X.ip, fn2, [V(64, X.pc)], X.st.fork())):
            chk.ob(R + ".next", s, EQ(x.e, X.que[0][0] if nq else C(0)), fn=fn2, what="the next packet is not the waiting one with the lowest id", key="next")
            queues(chk, R + ".next", X, s, fn2, [a for a, d in X.que], [], {}, "asking for the next packet")
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="nothing is ever multicast", key="present")

# ------------------------------------------------------------------------------------------------ P02
def ack_outcome(chk, R, X, s, fn, gone, what, closed=None):
    """`gone` = {slot: set of indices of X.infl given up}; everything else stays"""
    left = [h - {i for i, g in gone.items() if j in g} for j, h in enumerate(X.held)]
    alive = [j for j, h in enumerate(left) if h]; dead = [j for j, h in enumerate(left) if not h]
    held = {i: [X.infl[j][0] for j in range(len(left)) if i in left[j]] for i in X.tracked if i != closed}
    queues(chk, R, X, s, fn, [a for a, d in X.que], [X.infl[j][0] for j in alive], held, what)
    given_back(chk, R, X, s, [X.infl[j] for j in dead], fn, what)
    kept(chk, R, X, s, [X.infl[j] for j in alive] + X.que, fn, what)
    no_leak(chk, R, X, s, fn, what)

def which(s, pid, X, i):
    """[(state, index of X.infl outstanding for slot i with that id, or None)]"""
    out = []; cur = s
    for j, (a, d) in enumerate(X.infl):
        if i not in X.held[j]: continue
        nxt = None
        for s1, hit in splits(cur, EQ(pid, d["pid"])):
            if hit: out.append((s1, j))
            else: nxt = s1
        if nxt is None: return out
        cur = nxt
    out.append((cur, None))
    return out

def P02(chk):
    R = "P02"; M = chk.M; N = 2 if chk.tier == "quick" else 3; n = 0
    chk.need("rmc_pub_write", "rmc_pub_packet_ack", "rmc_pub_close_connection")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (up to %d packets, two subscribers)" % N]
    # sending: who has to acknowledge
    fn = "rmc_pub_write"
    for X, s, x, st, order, tr, sd, ok, base in transmit(chk, R, N):
        k = len(ok)
        sent = [t for t in order[:k] if is_data(X, t) and tr]; done = [t for t in order[:k] if not (is_data(X, t) and tr)]
        held = {i: [a for (a, d), h in zip(X.infl, X.held) if i in h] + [t[0] for t in sent] for i in tr}
        queues(chk, R + ".sent", X, s, fn, [t[0] for t in order[k:]], [a for a, d in X.infl] + [t[0] for t in sent], held, "after a packet was multicast")
        kept(chk, R + ".sent", X, s, X.infl + [(t[0], t[1]) for t in sent], fn, "after a packet was multicast")
        given_back(chk, R + ".released", X, s, [(t[0], t[1]) for t in done], fn, "a packet nobody has to acknowledge", plain=[t[0] for t in done if t[2]], since=base)
        mem, bad = X.members(s)
        chk.fact(R + ".members", s, not bad and same(s, mem, [X.sub(i) for i in tr]), fn=fn, what="sending changes who is subscribed", key="members")
        no_leak(chk, R + ".sent", X, s, fn, "after a packet was multicast"); n += len(sent)
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="no packet is ever tracked", key="present")
    # acknowledging
    fn = "rmc_pub_packet_ack"
    for k in range(N + 1):
        for held in helds(k):
            for i in (0, 1):
                X = Pubc(chk, queued=1, held=held); pid = S(new_sym("pid", 0, PIDMAX + 1)); st = X.st.fork(); st.assume(LE(pid + 1, X.next_pid))
                args, by = chk.arg_syms(fn, ctx=V(64, X.ctx), conn=V(64, X.conn(i)), pid=V(64, pid))
                for s, x in ends(chk, R, fn, chk.run(X.ip, fn, args, st)):
                    for s1, j in which(s, pid, X, i):
                        ack_outcome(chk, R + ".ack", X, s1, fn, {i: {j} if j is not None else set()}, "after an acknowledgement of %s" % ("an outstanding packet" if j is not None else "an id that is not outstanding"))
    # leaving
    fn = "rmc_pub_close_connection"
    for k in range(N + 1):
        for held in helds(k):
            for i in (0, 1):
                X = Pubc(chk, queued=1, held=held, opaque=conn_close(M))
                for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(i))], X.st.fork())):
                    ack_outcome(chk, R + ".leave", X, s, fn, {i: {j for j, h in enumerate(X.held) if i in h}}, "after a subscriber left", closed=i)

# ------------------------------------------------------------------------------------------------ P01, P08, P05: queueing
ENTRY = ("rmc_pub_queue_packet", "rmc_pub_queue_announcement")
def queue_run(chk, X, fn, flag, pay, ln, st=None):
    args, by = chk.arg_syms(fn, ctx=V(64, X.ctx), payload=V(64, pay), payload_len=V(16, ln), announce_flag=VC(8, flag))
    return chk.run(X.ip, fn, args, st or X.st.fork())
def stored(s, base=0):
    """stores to anything but the function's own locals and its fresh allocations"""
    out = []
    for e in s.events()[base:]:
        if e.kind == "store":
            b = keybase(s.norm(e.args[0].e).t)
            if b is not None and (SYMS[b].kind in ("base", "ptr") or (SYMS[b].kind == "heap" and not any(q.kind == "alloc" and q.x == b for q in s.events()))): out.append(e)
    return out
def refused(chk, R, s, fn, base, why):
    st_ = stored(s, base)
    chk.fact(R + ".unchanged", s, not st_, fn=fn, line=st_[0].line if st_ else None, what="%s changes something" % why, key="unchanged")
    cb = [e for e in s.events()[base:] if e.kind in ("cb", "sys")]
    chk.fact(R + ".silent", s, not cb, fn=fn, line=cb[0].line if cb else None, what="%s calls the application or the network" % why, key="silent")
    al = [s.norm(e.args[0].e) for e in s.events()[base:] if e.kind == "alloc"]; fr = [s.norm(e.args[0].e) for e in s.events()[base:] if e.kind == "free"]
    chk.fact(R + ".clean", s, sorted(map(repr, al)) == sorted(map(repr, fr)), fn=fn, what="%s leaks memory or releases memory that is not its own" % why, key="clean")

def P01(chk):
    R = "P01"; M = chk.M; N = 2 if chk.tier == "quick" else 4
    chk.need("rmc_pub_queue_packet", "pub_init_context", "rmc_pub_write", "rmc_pub_packet_ack", "rmc_pub_close_connection", "rmc_pub_timeout_process")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (up to %d waiting packets)" % N]
    acc = 0
    for n in range(N + 1):
        for k in range(2):
            for fn, flag in (("rmc_pub_queue_packet", 0), ("rmc_pub_queue_packet", 1), ("rmc_pub_queue_packet", 255), ("rmc_pub_queue_announcement", 1)):
                if not M.defined(fn): continue
                X = Pubc(chk, queued=n, held=[(0,)] * k, slots=1); pay = cell("payload"); ln = S(new_sym("len", 0, 65535)); base = len(X.st.events())
                for s0, x in ends(chk, R, fn, queue_run(chk, X, fn, flag, pay, ln)):
                    for s1, r in evals(s0, lambda q: X.ip.view(q, x, "s")):
                        for s, z in splits(s1, EQ(r, 0)):
                            q, bad = X.lst(s, "queued"); old = [s.norm(a) for a, d in X.que]
                            nxt = X.f(s, "pub_ctx.next_pid")
                            if not z:
                                chk.fact(R + ".refused", s, not bad and q == old, fn=fn, what="a packet that was refused is queued", key="refused")
                                chk.ob(R + ".refused.id", s, EQ(nxt, X.next_pid), fn=fn, what="a packet that was refused consumes an id", key="refused-id"); continue
                            acc += 1
                            new = [a for a in q if a not in old]
                            chk.fact(R + ".once", s, not bad and len(new) == 1 and [a for a in q if a in old] == old, fn=fn, what="an accepted packet is not queued exactly once beside the others%s" % (" (%s)" % bad if bad else ""), key="once")
                            if bad or len(new) != 1: continue
                            a = new[0]; data = not flag
                            chk.ob(R + (".id" if data else ".announcement.id"), s, EQ(X.pf(s, a, "pid"), X.next_pid if data else C(0)), fn=fn, what="an accepted packet does not get the next id" if data else "an announcement gets an id", key="id-%d" % data)
                            chk.ob(R + (".next" if data else ".announcement.next"), s, EQ(nxt, X.next_pid + (1 if data else 0)), fn=fn, what="ids of accepted packets are not consecutive" if data else "an announcement consumes an id", key="next-%d" % data)
                            chk.ob(R + ".length", s, EQ(X.pf(s, a, "payload_len"), ln), fn=fn, what="a packet is queued with another length", key="length")
                            if fn == "rmc_pub_queue_packet": chk.ob(R + ".payload", s, EQ(X.pf(s, a, "payload"), pay), fn=fn, what="a packet is queued with another payload", key="payload")
                            chk.ob(R + ".unsent", s, EQ(X.pf(s, a, "ref_count"), 0), fn=fn, what="a packet is queued as if it was sent", key="unsent")
                            chk.fact(R + ".place", s, q == (old + [a] if data else q[:1] + old) and (data or q[0] == a) if True else True, fn=fn, what="an accepted packet is not queued behind those accepted before it" if data else "an announcement is not queued ahead of the data", key="place-%d" % data)
                            kept(chk, R, X, s, X.que + X.infl, fn, "queueing")
    chk.fact(R + ".present", State(), acc > 0, fn="rmc_pub_queue_packet", what="no packet is ever accepted", key="present")
    # the first id, and nobody else touches the counter
    fn = "pub_init_context"; ip = shape_interp(chk, None, inv()); p = cell("pub_context", "pub_context", M.size("pub_context"))
    for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, p)], State())):
        chk.ob(R + ".first", s, EQ(vale(ip, s, p, "pub_context", "next_pid", "u"), 1), fn=fn, what="ids do not start at one", key="first")
        for l in ("queued", "inflight"):
            ns, bad = rdlist(chk, ip, s, p + M.member("pub_context", l)[0], "pub_packet_list")
            chk.fact(R + ".empty", s, not bad and not ns, fn=fn, what="a new publisher does not start with empty queues", key="empty")
    def still(X, outs, fn):
        for k, s, x in outs:
            if k == "ret": chk.ob(R + ".counter", s, EQ(X.f(s, "pub_ctx.next_pid"), X.next_pid), fn=fn, what="%s changes the id the next packet gets" % fn, key="counter-" + fn)
    X = Pubc(chk, queued=1, held=[(0,)]); still(X, run_write(chk, X), "rmc_pub_write")
    X = Pubc(chk, queued=1, held=[(0,)], opaque=conn_close(M)); still(X, chk.run(X.ip, "rmc_pub_close_connection", [V(64, X.ctx), VC(16, X.ix(0))], X.st.fork()), "rmc_pub_close_connection")
    X = Pubc(chk, queued=1, held=[(0,)]); still(X, chk.run(X.ip, "rmc_pub_packet_ack", [V(64, X.ctx), V(64, X.conn(0)), V(64, X.infl[0][1]["pid"])], X.st.fork()), "rmc_pub_packet_ack")
    X = Pubc(chk, queued=0, held=[(0,)], opaque={"rmc_pub_resend_packet": opq([0, 11])}); setf(X.ip, X.st, X.ctx, PC, "announce_send_interval", VC(32, 0)); still(X, chk.run(X.ip, "rmc_pub_timeout_process", [V(64, X.ctx)], X.st.fork()), "rmc_pub_timeout_process")
    X = Pubc(chk, slots=1)
    setf(X.ip, X.st, X.ctx, PC, "announce_send_interval", VC(32, 1000)); still(X, chk.run(X.ip, "rmc_pub_timeout_process", [V(64, X.ctx)], X.st.fork()), "rmc_pub_timeout_process")

def P08(chk):
    R = "P08"; M = chk.M; chk.need("rmc_pub_queue_packet", "rmc_pub_traffic_suspended"); acc = 0
    chk.assume += [ASSUME_CB, ASSUME_SHAPE]
    for fn in ENTRY:
        if not M.defined(fn): continue
        for n in (0, 1, 2):
            for flag in (0, 1) if fn == ENTRY[0] else (1,):
                for pc, cc in ((1, 1), (0, 1), (1, 0), (0, 0)) if n < 2 else ((1, 1),):
                    X = Pubc(chk, queued=n, held=[(0,)], slots=1); ln = S(new_sym("len", 0, 65535)); base = len(X.st.events())
                    susp = [(s, S0) for k, s, S0 in X.ip.run_fn("rmc_pub_traffic_suspended", [V(64, X.ctx)], X.st.fork()) if k == "ret"]
                    args, by = chk.arg_syms(fn, ctx=V(64, X.ctx if cc else C(0)), payload=V(64, cell("payload") if pc else C(0)), payload_len=V(16, ln), announce_flag=VC(8, flag))
                    for st0, sv in susp:
                        for s0, x in ends(chk, R, fn, chk.run(X.ip, fn, args, st0.fork())):
                            for s1, (r, busy) in evals(s0, lambda q: (X.ip.view(q, x, "s"), X.ip.view(q, sv, "s"))):
                                for s2, big in splits(s1, GE(ln, 0xFF21)):
                                    for s3, bs in splits(s2, EQ(busy, 16)):
                                        why = [e for c, e in ((not pc, 22), (not cc, 22), (big, 90), (bs and cc, 16)) if c]
                                        if not why:
                                            acc += 1
                                            chk.ob(R + ".accepted", s3, EQ(r, 0), fn=fn, what="a packet that can be queued is refused", key="accepted")
                                            q, bad = X.lst(s3, "queued")
                                            chk.fact(R + ".queued", s3, not bad and len(q) == n + 1, fn=fn, what="an accepted packet is not queued", key="queued")
                                            pm = [e for e in s3.events()[base:] if e.kind == "cb" and e.name == "poll_modify"]
                                            has = val(X.ip, State(), X.ctx, PC, "conn_vec.poll_modify").e
                                            D0 = X.f(X.st, "mcast_send_descriptor", "s")
                                            for s4, h, act in [(b, h, o) for a, h in splits(s3, NE(has, 0)) for b, o in splits(a, NE(D0, -1))]:
                                                if not h: continue
                                                D = X.f(s4, "mcast_send_descriptor", "s")
                                                if not act:
                                                    chk.fact(R + ".inactive", s4, not pm, fn=fn, line=pm[0].line if pm else None, what="queueing on a publisher that is not active updates a poll registration that does not exist", key="inactive"); continue
                                                good = [e for e in pm if s4.entails(EQ(X.ip.view(s4, e.args[2], "u"), MCAST))]
                                                chk.fact(R + ".ready", s4, len(good) >= 1, fn=fn, what="queueing does not ask for write readiness of the multicast channel", key="ready")
                                                for e in good:
                                                    chk.ob(R + ".ready.args", s4, [EQ(e.args[0].e, X.ud), EQ(X.ip.view(s4, e.args[1], "s"), D)], fn=e.fn, line=e.line, what="write readiness is requested for something other than the multicast channel", key="ready-args")
                                                    for s5, w in evals(s4, lambda q_: X.ip.view(q_, e.args[4], "u")): chk.fact(R + ".ready.write", s5, (not w.t and w.c & WR) or (w.t and s5.entails(EQ(w, WR))) or s5.entails(EQ(w, RD | WR)), fn=e.fn, line=e.line, what="queueing does not ask for write readiness", key="ready-write")
                                        else:
                                            chk.fact(R + ".error", s3, any(s3.entails(EQ(r, e)) for e in why), fn=fn, what="a packet that cannot be queued is not refused with the error for that (%s)" % ", ".join(map(str, why)), key="error-%s" % "-".join(map(str, why)))
                                            if not s3.entails(EQ(r, 0)): refused(chk, R, s3, fn, base, "a refused packet")
    chk.fact(R + ".present", State(), acc > 0, fn=ENTRY[0], what="no packet is ever accepted", key="present")

def suspended(chk, X, s):
    """[(state, bool)] as the query reports it"""
    out = []
    for k, s1, x in X.ip.run_fn("rmc_pub_traffic_suspended", [V(64, X.ctx)], s.fork()):
        if k != "ret": continue
        for s2, r in evals(s1, lambda q: X.ip.view(q, x, "s")):
            for s3, b in splits(s2, EQ(r, 16)):
                out.append((s3, b))
    return out
def P05(chk):
    R = "P05"; M = chk.M; N = 2 if chk.tier == "quick" else 4; acc = 0
    chk.need("rmc_pub_queue_packet", "rmc_pub_traffic_suspended", "rmc_pub_packet_ack", "rmc_pub_close_connection", "rmc_pub_throttling")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (up to %d unacknowledged packets)" % N]
    def thr(X): return X.f(X.st, "traffic_suspend_threshold"), X.f(X.st, "traffic_resume_threshold")
    for k in list(range(N + 1)) + [256]:
        for fn, flag in ((ENTRY[0], 0), (ENTRY[0], 1))[:1 if k > N else 2]:
            X = Pubc(chk, held=[(0,)] * k, slots=1); hi, lo = thr(X)
            for st0, b0 in suspended(chk, X, X.st):
              for s, x in ends(chk, R, fn, queue_run(chk, X, fn, flag, cell("payload"), C(4), st0.fork())):
                for s1, r in evals(s, lambda q: X.ip.view(q, x, "s")):
                    for s2, z in splits(s1, EQ(r, 0)):
                        chk.fact(R + ".gate", s2, z == (not b0), fn=fn, what="a packet is %s while traffic is %ssuspended" % ("accepted" if z else "refused", "" if b0 else "not "), key="gate-%d" % z)
                        if not z: continue
                        acc += 1
                        if flag: continue
                        for s3, b in suspended(chk, X, s2):
                            for s4, on in splits(s3, GE(hi, 1)):
                                if not on: chk.fact(R + ".off", s4, not b, fn=fn, what="traffic is suspended without a suspend threshold", key="off"); continue
                                for s5, full in splits(s4, LE(hi, k)):
                                    if not s5.fork().try_assume([LT(lo, hi)]): continue
                                    s5.try_assume([LT(lo, hi)])
                                    chk.fact(R + ".suspend", s5, b == full, fn=fn, what="with %d unacknowledged packets traffic is %ssuspended although that is %s the threshold" % (k, "" if b else "not ", "at or above" if full else "below"), key="suspend-%d" % full)
    chk.fact(R + ".present", State(), acc > 0, fn=ENTRY[0], what="no packet is ever accepted", key="present")
    def resume(X, run, fn):
        lo = thr(X)[1]
        for st0, b0 in suspended(chk, X, X.st):
            for s, x in ends(chk, R, fn, run(st0.fork())):
                for s2, b in suspended(chk, X, s):
                    n, bad = X.lst(s2, "inflight")
                    if not b0: chk.fact(R + ".spurious", s2, not b, fn=fn, what="%s suspends traffic" % fn, key="spurious"); continue
                    if len(n) == len(X.infl): chk.fact(R + ".early", s2, b or s2.entails(GE(lo, len(n))), fn=fn, what="%s resumes traffic although nothing was acknowledged" % fn, key="early"); continue
                    for s4, low in splits(s2, GE(lo, len(n))):
                        chk.fact(R + ".resume", s4, b != low, fn=fn, what="with %d unacknowledged packets left %s leaves traffic %s although that is %s the resume threshold" % (len(n), {"rmc_pub_packet_ack": "an acknowledgement", "rmc_pub_close_connection": "a disconnect"}.get(fn, fn), "suspended" if b else "resumed", "at or below" if low else "above"), key="resume-%d" % low)
    for k in range(1, N + 1):
        for held in [[frozenset([0])] * k, [frozenset([0, 1])] + [frozenset([0])] * (k - 1)]:
            X = Pubc(chk, held=held); fn = "rmc_pub_packet_ack"
            for j in range(k): resume(X, lambda st: chk.run(X.ip, fn, [V(64, X.ctx), V(64, X.conn(0)), V(64, X.infl[j][1]["pid"])], st), fn)
            X = Pubc(chk, held=held, opaque=conn_close(M)); fn = "rmc_pub_close_connection"
            resume(X, lambda st: chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(0))], st), fn)
            X = Pubc(chk, held=held, opaque={"rmc_pub_resend_packet": opq([0, 11])}); fn = "rmc_pub_timeout_process"
            setf(X.ip, X.st, X.ctx, PC, "announce_send_interval", VC(32, 0)); resume(X, lambda st: chk.run(X.ip, fn, [V(64, X.ctx)], st), fn)
    # configuration
    fn = "rmc_pub_throttling"; ip = chk.interp(field_inv=inv()); ctx = fresh_obj("ctx", PC)
    hi, lo = (S(new_sym(n, 0, (1 << 32) - 1)) for n in ("suspend", "resume"))
    args, by = chk.arg_syms(fn, ctx=V(64, ctx)); args[1] = V(32, hi); args[2] = V(32, lo)
    st = State(); old = [val(ip, st, ctx, PC, f).e for f in ("traffic_suspend_threshold", "traffic_resume_threshold")]
    for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
        for s1, r in evals(s, lambda q: ip.view(q, x, "s")):
            for s2, bad in splits(s1, LT(hi, lo)):
                chk.ob(R + ".config", s2, NE(r, 0) if bad else EQ(r, 0), fn=fn, what="a %s threshold pair is %s" % (("contradictory", "accepted") if bad else ("valid", "rejected")), key="config-%d" % bad)
                for f, n, o in zip(("traffic_suspend_threshold", "traffic_resume_threshold"), (hi, lo), old):
                    chk.ob(R + ".config.set", s2, EQ(vale(ip, s2, ctx, PC, f, "u"), o if bad else n), fn=fn, what="a rejected threshold pair changes the %s" % f if bad else "the %s is not what was configured" % f, key="set-%d" % bad)

# ------------------------------------------------------------------------------------------------ P03
def no_announce(X, st=None):
    st = st or X.st
    setf(X.ip, st, X.ctx, PC, "announce_send_interval", VC(32, 0)); setf(X.ip, st, X.ctx, PC, "announce_next_send_ts", VC(64, 0))
def P03(chk):
    R = "P03"; M = chk.M; N = 2 if chk.tier == "quick" else 3; fn = "rmc_pub_timeout_process"; n = 0
    chk.need(fn, "rmc_pub_resend_packet"); OP = "rmc_pub_resend_packet"
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (up to %d packets, two subscribers)" % N, "send times do not decrease with packet ids (one monotonic clock)", "what rmc_pub_resend_packet puts on the control channel is decided by W02"]
    sc = [(k, held, modes, None) for k in range(N + 1) for held in helds(k) for modes in ([CONNECTED, CONNECTED],)]
    sc += [(k, [frozenset([0])] * k, [CLOSED, CONNECTED], [0, 1]) for k in (1, 2)] + [(3, [frozenset([0])] * 3, [CONNECTED], None)]
    sc += [(2, [frozenset([0, 1]), frozenset([1])], [CONNECTED, CLOSED], [0, 1]), (1, [frozenset([0, 1])], [CLOSED, CONNECTED], [1, 0])]
    for k, held, modes, tracked in sc:
        for off in (0, 1):
            if off and k > 1: continue
            X = Pubc(chk, held=held, modes=modes, tracked=tracked, opaque={OP: opq([0, 11, anyerr] if k < 2 else [0, 11])})
            if not off: no_announce(X)
            for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx)], X.st.fork())):
                now = [e for e in s.events() if e.kind == "now"]; rs = [e for e in s.events() if e.kind == "opq" and e.name == OP]
                if not now: chk.fact(R + ".now", s, not rs, fn=fn, what="packets are resent without looking at the clock", key="now"); continue
                if off:
                    # an announcement that is due is handled in a call of its own
                    q, bad = X.lst(s, "queued"); nx, ivl = X.f(X.st, "announce_next_send_ts", "s"), X.f(X.st, "announce_send_interval")
                    sts = [s1 for s1, a in splits(s, NE(ivl, 0)) for s1, b in (splits(s1, NE(nx, 0)) if a else [(s1, False)]) for s1, c in (splits(s1, LE(nx, now[0].ret.e)) if b else [(s1, False)]) if not c]
                else: sts = [s]
                for s in sts:
                    T0, T1 = now[0].ret.e, now[-1].ret.e
                    RT = X.f(s, "resend_timeout")
                    bycon = {}
                    for e in rs:
                        i = [j for j in X.tracked if s.norm(e.args[1].e) == s.norm(X.conn(j))]; p = [j for j, (a, d) in enumerate(X.infl) if s.norm(e.args[2].e) == s.norm(a)]
                        good = len(i) == 1 and len(p) == 1 and i[0] in X.held[p[0]]
                        chk.fact(R + ".who", s, good, fn=e.fn, line=e.line, what="a packet is resent to a subscriber that does not lack it", key="who")
                        chk.ob(R + ".ctx", s, EQ(e.args[0].e, X.ctx), fn=e.fn, line=e.line, what="a packet is resent for another publisher", key="ctx")
                        if good: bycon.setdefault(i[0], []).append((p[0], e)); n += 1
                    todo = [(s, 0, 0, {i: set() for i in X.tracked}, False)]
                    order = [(i, j) for i in X.tracked for j in range(len(X.infl)) if i in X.held[j]]
                    while todo:
                        s1, pos, _, gone, stopped = todo.pop()
                        if pos == len(order):
                            ack_outcome(chk, R + ".after", X, s1, fn, gone, "after resending"); continue
                        i, j = order[pos]
                        if pos and order[pos - 1][0] != i: stopped = False
                        mine = bycon.get(i, []); att = [e for p, e in mine if p == j]
                        con = X.modes[i] == CONNECTED; ts = X.infl[j][1]["send_ts"]
                        for s2, due in splits(s1, LE(ts + RT, T0)):
                            g = {a: set(b) for a, b in gone.items()}
                            if not due and not s2.entails(GE(ts + RT, T1 + 1)): todo.append((s2, pos + 1, 0, g, stopped)); continue
                            if con:
                                if not due: chk.fact(R + ".early", s2, not att, fn=fn, what="a packet is resent before its timeout", key="early")
                                elif not stopped: chk.fact(R + ".resent", s2, len(att) == 1, fn=fn, what="a packet that timed out is resent %d times" % len(att), key="resent")
                                else: chk.fact(R + ".resent", s2, len(att) <= 1, fn=fn, what="a packet that timed out is resent %d times" % len(att), key="resent")
                            else: chk.fact(R + ".gone", s2, not att, fn=fn, what="a packet is resent to a subscriber that is not connected", key="gone")
                            ok = (due and not con) or any(not e.ret.e.t and e.ret.e.c == 0 for e in att)
                            if ok: g[i].add(j)
                            todo.append((s2, pos + 1, 0, g, stopped or (bool(att) and not ok)))
                    for i, l in bycon.items():
                        chk.fact(R + ".oldest", s, [p for p, e in l] == sorted(p for p, e in l), fn=fn, what="packets are not resent oldest id first", key="oldest")
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="nothing is ever resent", key="present")

# ------------------------------------------------------------------------------------------------ P06
def accept_model(M, X, slot):
    """what rmc_conn_process_accept does to the vector (K02, K03 decide that it does)"""
    def f(ip, st, I, name, args):
        out = []; b = st.fork()
        er = anyerr(ip, b); b.event("opq", name, args, er); out.append(("ret", b, er))
        c = X.conn(slot)
        for k, v in (("mode", C(CONNECTED)), ("descriptor", S(new_sym("fd_new", 0, 1 << 20))), ("remote_address", X.peer[0]), ("remote_port", X.peer[1]), ("action", C(RD))):
            o, m = M.member("rmc_connection", k); ip.store(st, c + o, V(8 * m["size"], v), m["size"])
        ip.store(st, args[2].e, VC(16, X.ix(slot)), 2)
        st.event("opq", name, args, VC(32, 0)); out.append(("ret", st, VC(32, 0)))
        return out
    return f

def P06(chk):
    R = "P06"; M = chk.M; chk.need("rmc_pub_read", "rmc_pub_close_connection", "rmc_conn_process_accept", "rmc_conn_tcp_read"); acc = 0
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (two subscriber slots)", "the connection table itself behaves as stated by K02 and K03"]
    fn = "rmc_pub_read"
    for slot, pad in ((0, 0), (1, 0), (1, FAR)):
        for other in (CLOSED, CONNECTED):
            modes = [other, other]; modes[slot] = CLOSED; held = [frozenset([1 - slot])] if other else []
            X = Pubc(chk, queued=1, held=held, modes=modes, opaque=conn_close(M), pad=pad); X.peer = (S(new_sym("peer_addr", 0, (1 << 32) - 1)), S(new_sym("peer_port", 0, 65535)))
            X.ip.opaque["rmc_conn_process_accept"] = accept_model(M, X, slot)
            for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, LISTEN), V(64, S(ptr_sym("op_res", True, None, "base")))], X.st.fork())):
                ac = calls(s, "rmc_conn_process_accept"); con = cbs(s, "subscriber_connect_cb"); dis = cbs(s, "subscriber_disconnect_cb"); cl = [e for e in s.events() if e.kind == "opq" and e.name == "rmc_conn_close_connection"]
                if len(ac) != 1: chk.fact(R + ".accept", s, False, fn=fn, what="a pending connection is accepted %d times" % len(ac), key="accept"); continue
                mem, bad = X.members(s); mine = s.norm(X.sub(slot)); rest = [s.norm(X.sub(i)) for i in X.tracked]
                ok = not ac[0].ret.e.t and ac[0].ret.e.c == 0
                for s1, r in evals(s, lambda q: X.ip.view(q, x, "s")):
                    if not ok:
                        chk.ob(R + ".failed", s1, NE(r, 0), fn=fn, what="a failed accept is reported as success", key="failed")
                        chk.fact(R + ".failed.silent", s1, not con and not dis and not cl and not bad and mem == rest, fn=fn, what="a failed accept has an effect", key="failed-effect"); continue
                    acc += 1
                    has = val(X.ip, State(), X.ctx, PC, "subscriber_connect_cb").e
                    for s2, h in splits(s1, NE(has, 0)):
                        chk.fact(R + ".told", s2, len(con) == (1 if h else 0), fn=fn, what="a new subscriber is announced to the application %d times" % len(con), key="told")
                        for s4, v in evals(s2, lambda q: X.ip.view(q, con[0].ret, "u")) if con else [(s2, C(1))]:
                            for s5, yes in splits(s4, NE(v, 0)):
                                chk.fact(R + (".tracked" if yes else ".refused"), s5, not bad and sorted(map(repr, mem)) == sorted(map(repr, rest + ([mine] if yes else []))), fn=fn, what="%s%s" % ("an accepted subscriber is not tracked" if yes else "a refused subscriber stays tracked", " (%s)" % bad if bad else ""), key="tracked-%d" % yes)
                                here = [e for e in cl if s5.entails(EQ(X.ip.view(s5, e.args[1], "u"), X.ix(slot))) and s5.entails(EQ(e.args[0].e, X.cv))]
                                chk.fact(R + (".stays" if yes else ".closed"), s5, len(cl) == len(here) == (0 if yes else 1), fn=fn, what="%s" % ("an accepted connection is closed again" if yes else "a refused connection is closed %d times" % len(here)), key="closed-%d" % yes)
                                chk.fact(R + ".joined.disconnect", s5, not dis or not yes, fn=fn, what="an accepted subscriber is reported as disconnected", key="accept-disconnect")
                                if yes:
                                    q, b2 = X.lst(s5, slot)
                                    chk.fact(R + ".empty", s5, not b2 and not q, fn=fn, what="a new subscriber does not start without outstanding packets", key="empty")
                                    chk.ob(R + ".linked", s5, [EQ(vale(X.ip, s5, X.sub(slot), "pub_subscriber", "user_data"), X.conn(slot)), EQ(vale(X.ip, s5, X.sub(slot), "pub_subscriber", "context"), X.pc)], fn=fn, what="a new subscriber is not tied to its connection and publisher", key="linked")
                                for i in X.tracked:
                                    q, b2 = X.lst(s5, i)
                                    chk.fact(R + ".others", s5, not b2 and same(s5, q, [a for (a, d), h_ in zip(X.infl, X.held) if i in h_]), fn=fn, what="a new subscriber changes what is outstanding for another one", key="others")
                        for e in con:
                            chk.ob(R + ".args", s2, [EQ(e.args[0].e, X.ctx), EQ(X.ip.view(s2, e.args[1], "u"), X.peer[0]), EQ(X.ip.view(s2, e.args[2], "u"), X.peer[1])], fn=e.fn, line=e.line, what="the connect callback does not get the peer's address and port", key="args")
                            ns, b2 = rdlist(chk, X.ip, s2, X.L, "pub_sub_list", mem=e.mem)
                            chk.fact(R + ".before", s2, not b2 and mine in [content(X.ip, s2, lt(M, "pub_sub_list"), q, mem=e.mem) for q in ns], fn=e.fn, line=e.line, what="the connect callback runs before the connection is a tracked subscriber", key="before")
    chk.fact(R + ".present", State(), acc > 0, fn=fn, what="no connection is ever accepted", key="present")
    # leaving
    def left(X, s, i, fn):
        dis = cbs(s, "subscriber_disconnect_cb"); cl = [e for e in s.events() if e.kind == "opq" and e.name == "rmc_conn_close_connection"]
        has = val(X.ip, State(), X.ctx, PC, "subscriber_disconnect_cb").e
        for s1, h in splits(s, NE(has, 0)): chk.fact(R + ".reported", s1, len(dis) == (1 if h else 0), fn=fn, what="a disconnect is reported %d times" % len(dis), key="reported")
        for e in dis:
            adr, port = (vale(X.ip, X.st, X.conn(i), "rmc_connection", f, "u") for f in ("remote_address", "remote_port"))
            chk.ob(R + ".reported.args", s, [EQ(e.args[0].e, X.ctx), EQ(X.ip.view(s, e.args[1], "u"), adr), EQ(X.ip.view(s, e.args[2], "u"), port)], fn=e.fn, line=e.line, what="the disconnect callback does not get the subscriber's address and port", key="reported-args")
        here = [e for e in cl if s.entails(EQ(X.ip.view(s, e.args[1], "u"), X.ix(i))) and s.entails(EQ(e.args[0].e, X.cv))]
        chk.fact(R + ".closed.once", s, len(cl) == len(here) == 1, fn=fn, what="the connection of a leaving subscriber is closed %d times" % len(here), key="closed-once")
        mem, bad = X.members(s)
        chk.fact(R + ".dropped", s, not bad and mem == [s.norm(X.sub(j)) for j in X.tracked if j != i], fn=fn, what="the subscriber set is not the remaining ones after a disconnect%s" % (" (%s)" % bad if bad else ""), key="dropped")
        ack_outcome(chk, R + ".gave-up", X, s, fn, {i: {j for j, h in enumerate(X.held) if i in h}}, "after a disconnect", closed=i)
    fn = "rmc_pub_close_connection"
    for i, pad in ((0, 0), (1, 0), (1, FAR)):
        for k in range(3) if not pad else (1,):
            for held in (helds(k) if k < 2 else [[frozenset([0, 1]), frozenset([i])], [frozenset([1 - i]), frozenset([0, 1])]]):
                X = Pubc(chk, queued=1, held=held, opaque=conn_close(M), pad=pad)
                for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(i))], X.st.fork())):
                    chk.ob(R + ".ok", s, EQ(X.ip.view(s, x, "s"), 0), fn=fn, what="closing a subscriber is reported as an error", key="ok"); left(X, s, i, fn)
    X = Pubc(chk, queued=1, held=[frozenset([0])], modes=[CONNECTED, CLOSED], opaque=conn_close(M))
    st = X.st.fork(); i = S(new_sym("s_ind", 1, 65535)); base = len(st.events())
    for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), V(16, i)], st)):
        chk.ob(R + ".unknown", s, NE(X.ip.view(s, x, "s"), 0), fn=fn, what="closing an unknown or closed subscriber is not an error", key="unknown")
        ef = stored(s, base) + [e for e in s.events()[base:] if e.kind in ("cb", "sys", "free", "opq")]
        chk.fact(R + ".unknown.effect", s, not ef, fn=fn, line=ef[0].line if ef else None, what="closing an unknown or closed subscriber has an effect", key="unknown-effect")
    # the peer hangs up
    fn = "rmc_pub_read"
    for i, pad in ((0, 0), (1, 0), (1, FAR)):
        X = Pubc(chk, queued=0, held=[frozenset([0]), frozenset([0, 1])], pad=pad, opaque=dict(conn_close(M), rmc_conn_tcp_read=opq([0, 11, 71, 32])))
        for s, x in ends(chk, R, fn, chk.run(X.ip, fn, [V(64, X.ctx), VC(16, X.ix(i)), V(64, S(ptr_sym("op_res", True, None, "base")))], X.st.fork())):
            rd = calls(s, "rmc_conn_tcp_read")
            if len(rd) != 1: chk.fact(R + ".read", s, False, fn=fn, what="a readable control channel is read %d times" % len(rd), key="read"); continue
            if rd[0].ret.e.c == 32:
                left(X, s, i, fn)
                pm = [e for e in s.events() if e.kind == "cb" and e.name == "poll_modify"]
                chk.fact(R + ".hangup.poll", s, not pm, fn=fn, line=pm[0].line if pm else None, what="poll interest of a closed connection is changed", key="hangup-poll")
            else:
                cl = calls(s, "rmc_conn_close_connection") + cbs(s, "subscriber_disconnect_cb")
                mem, bad = X.members(s)
                chk.fact(R + ".stay", s, not cl and not bad and len(mem) == 2, fn=fn, what="a connected subscriber is dropped without having disconnected", key="stay")

# ------------------------------------------------------------------------------------------------ P07
MAXPAY = 0xFF20
def supplies(M):
    def hook(ip, st, name, args, r):
        if name != "announce_cb" or len(args) < 4: return
        a = st.norm(args[3].e)
        if not a.t: return
        n = S(new_sym("supplied#%d" % uniq(), 0, 65535)); ip.store(st, a, V(16, n), 2)
        st.event("supplied", name, args, V(16, n))
    return hook
def P07(chk):
    R = "P07"; M = chk.M; fn = "rmc_pub_timeout_process"; n = 0
    chk.need(fn, "rmc_pub_set_announce_interval")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE, "the announce callback reports a length through its length argument"]
    for nq, held in ((0, []), (1, []), (0, [frozenset([0])])):
        X = Pubc(chk, queued=nq, held=held, slots=1, opaque={"rmc_pub_resend_packet": opq([0, 11])}); ip = X.ip
        ip.callback_hook = supplies(M)
        ivl, nxt = X.f(X.st, "announce_send_interval"), X.f(X.st, "announce_next_send_ts", "s")
        X.st.assume(GE(nxt, 0)); X.st.assume(LE(nxt, TSMAX)); has = val(ip, X.st, X.ctx, PC, "announce_cb").e
        old = [s_ for s_ in X.lst(X.st, "queued")[0]]
        for st0, busy in suspended(chk, X, X.st):
            base = len(st0.events())
            for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, X.ctx)], st0.fork())):
                ev = s.events()[base:]; now = [e for e in ev if e.kind == "now"]; cb = [e for e in ev if e.kind == "cb" and e.name == "announce_cb"]
                q, bad = X.lst(s, "queued")
                chk.fact(R + ".lists", s, not bad and [a for a in q if a in old] == old, fn=fn, what="queued packets change while announcing", key="lists")
                if bad: continue
                new = [a for a in q if a not in old]
                T = now[0].ret.e if now else None
                cases = []
                for s1, on in splits(s, NE(ivl, 0)):
                    if not on: cases.append((s1, "disabled")); continue
                    for s2, on in splits(s1, NE(nxt, 0)):
                        if not on: cases.append((s2, "unscheduled")); continue
                        if T is None: chk.fact(R + ".clock", s2, not cb and not new, fn=fn, what="an announcement is made without looking at the clock", key="clock"); continue
                        for s3, due in splits(s2, LE(nxt, T)): cases.append((s3, "due" if due else "early"))
                for s1, c in cases:
                    if c == "early" and not s1.entails(GE(nxt, now[-1].ret.e + 1)): continue
                    after = X.f(s1, "announce_next_send_ts", "s")
                    chk.ob(R + ".interval", s1, EQ(X.f(s1, "announce_send_interval"), ivl), fn=fn, what="timeout processing changes the announce interval", key="interval")
                    if c != "due":
                        chk.fact(R + ".quiet", s1, not cb and not new, fn=fn, what="an announcement is made although announcements are %s" % {"disabled": "disabled", "unscheduled": "not scheduled", "early": "not due yet"}[c], key="quiet-" + c)
                        if c == "early": chk.ob(R + ".kept", s1, EQ(after, nxt), fn=fn, what="an announcement that is not due yet is rescheduled", key="kept")
                        continue
                    n += 1
                    chk.fact(R + ".next", s1, any(s1.entails(EQ(after, e.ret.e + ivl)) for e in now), fn=fn, what="the next announcement is not scheduled a full interval later", key="next")
                    for s2, h in splits(s1, NE(has, 0)):
                        chk.fact(R + ".asked", s2, len(cb) == (1 if h else 0), fn=fn, what="a due announcement asks the announce callback %d times" % len(cb), key="asked")
                        if not h: L = C(0); yes = [(s2, True)]
                        else:
                            if len(cb) != 1: continue
                            sup = [e for e in ev if e.kind == "supplied"]; L = sup[0].ret.e if sup else None
                            yes = [(s4, y) for s3, v in evals(s2, lambda z: ip.view(z, cb[0].ret, "u")) for s4, y in splits(s3, NE(v, 0))]
                            for s3, mx in evals(s2, lambda z: ip.view(z, cb[0].args[2], "u")):
                                chk.ob(R + ".max", s3, LE(mx, MAXPAY), fn=cb[0].fn, line=cb[0].line, what="the announce callback may supply more than the maximum payload", key="max")
                                chk.ob(R + ".args", s3, EQ(cb[0].args[0].e, X.ctx), fn=cb[0].fn, line=cb[0].line, what="the announce callback gets another context", key="args")
                                buf = s3.norm(cb[0].args[1].e); b = keybase(buf.t) if buf.t else None
                                if b is not None and SYMS[b].field is not None and buf == S(b) + buf.c:
                                    sz = SYMS[b].field; sz = sz if isinstance(sz, Lin) else C(sz)
                                    chk.ob(R + ".room", s3, GE(sz - buf.c, mx), fn=cb[0].fn, line=cb[0].line, what="the announce callback may supply more than the buffer it is given holds", key="room")
                            if L is None: chk.unsure(R + ".content", fn, "length supplied by the callback", "not passed by pointer"); continue
                        for s3, y in yes:
                            want = 1 if y and not busy else 0
                            fits = [(s3, True)] if not h else splits(s3, LE(L, MAXPAY))
                            for s4, ok in fits:
                                if y and not ok: chk.fact(R + ".once", s4, len(new) <= 1, fn=fn, what="a due announcement is queued %d times" % len(new), key="once")
                                else: chk.fact(R + ".once" if want else R + (".declined" if not y else ".busy"), s4, len(new) == want, fn=fn, what="an announcement that is %s is queued %d times" % ("due" if want else ("declined" if not y else "held back by suspended traffic"), len(new)), key="once-%d" % want)
                                for a in new:
                                    chk.ob(R + ".id", s4, EQ(X.pf(s4, a, "pid"), 0), fn=fn, what="an announcement is queued as data", key="id")
                                    pl = X.pf(s4, a, "payload_len"); pay = X.pf(s4, a, "payload")
                                    if not ok: chk.ob(R + ".length", s4, LE(pl, MAXPAY), fn=fn, what="an announcement is longer than the maximum payload", key="clamp"); continue
                                    chk.ob(R + ".length", s4, EQ(pl, L), fn=fn, what="an announcement is not as long as what the callback supplied", key="length")
                                    b = keybase(pay.t) if pay.t else None
                                    if b is None or SYMS[b].kind not in ("alloca", "heap"): chk.unsure(R + ".content", fn, "announcement payload", "memory not recognised"); continue
                                    chk.fact(R + ".valid", s4, SYMS[b].kind != "alloca" and b not in s4.freed, fn=fn, what="an announcement's content does not live until it is sent", key="valid")
                                    if not h or SYMS[b].kind == "alloca": continue
                                    src = s4.norm(cb[0].args[1].e)
                                    if pay == src: continue
                                    after_cb = ev[ev.index(cb[0]):]
                                    cp = [e for e in after_cb if e.kind == "memcpy" and s4.entails(EQ(e.args[0].e, pay))]
                                    if not cp and any(e.kind == "loop" for e in after_cb): chk.unsure(R + ".content", fn, "announcement payload", "copied by a loop"); continue
                                    for s5, some in splits(s4, GE(L, 1)):
                                        if some: chk.fact(R + ".content", s5, any(s5.entails(EQ(e.args[1].e, src)) and s5.entails(EQ(e.args[2].e, L)) for e in cp), fn=fn, what="an announcement's content is not what the callback supplied", key="content")
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="no announcement ever becomes due", key="present")
    # configuration
    fn = "rmc_pub_set_announce_interval"; ip = chk.interp(field_inv=inv()); ctx = fresh_obj("ctx", PC); st = State()
    v = S(new_sym("interval", 0, (1 << 32) - 1)); o = val(ip, st, ctx, PC, "announce_next_send_ts"); st.assume(GE(o.e, 0)); st.assume(LE(o.e, TSMAX))
    for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, ctx), V(32, v)], st)):
        nx = vale(ip, s, ctx, PC, "announce_next_send_ts", "s"); now = [e for e in s.events() if e.kind == "now"]
        chk.ob(R + ".set", s, [EQ(ip.view(s, x, "s"), 0), EQ(vale(ip, s, ctx, PC, "announce_send_interval", "u"), v)], fn=fn, what="the announce interval is not what was configured", key="set")
        for s1, z in splits(s, EQ(v, 0)):
            if z: chk.ob(R + ".off", s1, EQ(nx, 0), fn=fn, what="an announce deadline stays pending although announcements were disabled", key="off"); continue
            for s2, was in splits(s1, NE(o.e, 0)):
                chk.fact(R + ".on", s2, any(s2.entails(EQ(nx, e.ret.e + v)) for e in now) or (was and s2.entails(EQ(nx, o.e))), fn=fn, what="enabling announcements does not schedule the next one an interval from now", key="on-%d" % was)

# ------------------------------------------------------------------------------------------------ P09
def P09(chk):
    R = "P09"; M = chk.M; n = 0
    chk.need("rmc_pub_read", "rmc_conn_tcp_read")
    chk.assume += [ASSUME_CB, ASSUME_RING, ASSUME_SHAPE + " (ids up to 4, 6 in the thorough tier, of which any subset is outstanding; the interval is arbitrary)"]
    tabs = cmds.tables(chk); U64 = (1 << 64) - 1
    top = 4 if chk.tier == "quick" else 6
    # the packets analysed below have ids below the next one: every id handed out is
    fn = "rmc_pub_queue_packet"; X = Pubc(chk, queued=1, held=[(0,)], slots=1)
    for s0, x in ends(chk, R, fn, queue_run(chk, X, fn, 0, cell("payload"), S(new_sym("len", 0, 65535)))):
        for s1, r in evals(s0, lambda q: X.ip.view(q, x, "s")):
            for s, z in splits(s1, EQ(r, 0)):
                q, bad = X.lst(s, "queued")
                if bad or not z: continue
                nxt = X.f(s, "pub_ctx.next_pid")
                for a in q: chk.ob(R + ".newest", s, LT(X.pf(s, a, "pid"), nxt), fn=fn, what="the packet queued last is beyond the ids that can be acknowledged", key="newest")
    for role, code, h, kind in cmds.handlers(chk, tabs):
        if kind != "ack": continue
        for k in range(top + 1):
            for ids in itertools.combinations(range(1, top + 1), k):
                for held in ([[frozenset([0, 1])] * k, [frozenset([i % 2]) for i in range(k)]] if k else [[]]):
                    X = Pubc(chk, queued=0, held=held); X.ip.maxunroll = 24; i = 0
                    for (a, d), p in zip(X.infl, ids):
                        d["pid"] = C(p); put(X.ip, X.st, a + M.member("pub_packet", "pid")[0], V(64, C(p)))
                    setf(X.ip, X.st, X.pc, "pub_context", "next_pid", V(64, C(top + 1)))
                    setf(X.ip, X.st, X.ctx, PC, "traffic_suspended", VC(8, 0))
                    st = X.st.fork(); rb = X.conn(i) + M.member("rmc_connection", "read_buf")[0]
                    u0, p0 = models.cb_get(X.ip, st, rb); st.assume(GE(u0, 1 + M.size("cmd_ack_interval")))
                    strm = S(models.stream_sym(st, rb))
                    fl = lambda q, f: X.ip.view(q, X.ip.load(q, q.norm(strm + p0 + 1 + M.member("cmd_ack_interval", f)[0]), 8, mem={}, peek=True), "u")
                    outs = chk.run(X.ip, h, [V(64, X.conn(i)), V(64, X.ctx)], st)
                    for f, line, s in X.ip.runaway:
                        if X.ip.exhausted:
                            for s1, (a, b) in evals(s, lambda q: (fl(q, "first_pid"), fl(q, "last_pid"))):
                                if s1.try_assume([EQ(b, U64)]) and s1.facts.feasible():
                                    chk.fact(R + ".bounded", s1, False, fn=f, line=line, what="handling an acknowledgement goes on far beyond the packets that exist, without end for the largest interval", key="bounded")
                    chk.fact(R + ".analysed", State(), True, fn=h, key="analysed")
                    for s, x in ends(chk, R, h, outs):
                        for s0, (a, b) in evals(s, lambda q: (fl(q, "first_pid"), fl(q, "last_pid"))):
                            todo = [(s0, 0, set())]
                            while todo:
                                s1, j, gone = todo.pop()
                                if j == len(ids):
                                    n += 1; ack_outcome(chk, R, X, s1, h, {i: gone}, "after an acknowledgement interval"); continue
                                if i not in X.held[j]: todo.append((s1, j + 1, gone)); continue
                                for s2, lo in splits(s1, LE(a, ids[j])):
                                    for s3, hi in (splits(s2, GE(b, ids[j])) if lo else [(s2, False)]):
                                        todo.append((s3, j + 1, gone | {j} if hi else gone))
    chk.fact(R + ".present", State(), n > 0, fn="rmc_pub_read", what="no acknowledgement is ever handled", key="present")

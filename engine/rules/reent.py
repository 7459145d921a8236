"""A08: callbacks that use the context they are given, on explicit small contexts with the real code on both sides of the callback."""
from rules.conns import *
from rules.pubq import supplies
from rules import cmds

MOST = 2              # calls an application makes from one kind of callback in one operation

def did(t, name=None): return [e for e in t.new() if e.kind == "app" and (name is None or e.name == name)]
def call_in(ip, st, name, fn, args, note, r):
    """the application calls fn from a callback; the call and its result are recorded"""
    out = []
    if name == "publish": note = dict(note, sus=ip.load(st, args[0].e + ip.M.member("rmc_pub_context", "traffic_suspended")[0], 1))
    for k, s, x in ip.run_fn(fn, args, st):
        if k == "ret":
            if name == "publish": note = dict(note, off=ip.load(s, args[0].e + ip.M.member("rmc_pub_context", "traffic_suspended")[0], 1))
            s.event("app", name, tuple(args), x, x=note); out.append(("ret", s, r))
        else: out.append((k, s, x))
    return out
def then(ip, outs, f):
    """go on with f where the call came back"""
    res = []
    for o in outs: res += f(o[1]) if o[0] == "ret" else [o]
    return res

def publishes(H):
    """the application queues a packet"""
    def f(ip, st, I, args, r):
        k = sum(1 for e in st.events() if e.kind == "app")
        if k >= MOST: return [("ret", st, r)]
        pay = cell("news%d#%d" % (k, uniq())); ln = S(new_sym("newslen%d" % k, 1, 0xFF20))
        return call_in(ip, st, "publish", "rmc_pub_queue_packet", [V(64, H.ctx), V(64, pay), V(16, ln), VC(8, 0)], dict(pay=pay, len=ln), r)
    return f
def says(H, where):
    """the application sends a control message; where(state, args) gives address and port"""
    def f(ip, st, I, args, r):
        k = sum(1 for e in st.events() if e.kind == "app" and e.name == "message")
        if k >= MOST: return [("ret", st, r)]
        msg = cell("message%d#%d" % (k, uniq())); ln = S(new_sym("msglen%d" % k, 1, 4000)); a, p = where(st, args)
        return call_in(ip, st, "message", "rmc_sub_write_control_message_by_address", [V(64, H.ctx), a, p, V(64, msg), V(16, ln)], dict(len=ln), r)
    return f
def dispatches(H, chk, r0=None):
    """the application takes what is ready, packet by packet"""
    M = chk.M
    def f(ip, st, I, args, r):
        def one(s, n):
            if n > MOST + 2: return [("ret", s, r)]
            def take(s2):
                e = s2.events()[-1]; p = s2.norm(e.ret.e)
                out = []
                for cs, some in (([NE(p, 0)], True), ([EQ(p, 0)], False)):
                    s3 = s2.fork()
                    if not s3.try_assume(cs) or not s3.facts.feasible(): continue
                    if not some: out.append(("ret", s3, r)); continue
                    pl = s3.norm(ip.load(s3, p + M.member("sub_packet", "payload")[0], 8, hint="p").e)
                    out += then(ip, call_in(ip, s3, "dispatched", "rmc_sub_packet_dispatched", [V(64, H.ctx), V(64, p)], dict(pack=p, payload=pl), r), lambda q: one(q, n + 1))
                return out
            return then(ip, call_in(ip, s, "next", "rmc_sub_get_next_dispatch_ready", [V(64, H.ctx)], None, r), take)
        return one(st, 0)
    return f
def both(f, g):
    def h(ip, st, I, args, r): return then(ip, f(ip, st, I, args, r), lambda s: g(ip, s, I, args, r))
    return h

def at_most(M, name, limit, fst=1):
    """a system call that delivers something the first time only, within `limit`"""
    def f(ip, st, I, nm, args):
        n = sum(1 for e in st.events() if e.kind == "sys" and e.name == name)
        outs = ip.models[name](ip, st, I, nm, args); res = []
        for k, s, r in outs:
            if k == "ret":
                e = s.events()[-1]
                if e.kind == "sys" and e.name == name:
                    if e.x["ok"]:
                        if n >= fst or not limit(s, e): continue
                    elif n >= fst: s.try_assume([EQ(e.x["errno"], 11)])
            res.append((k, s, r))
        return res
    return f

def whole(chk, R, t):
    """nothing is touched after it was released; every list is sound and holds nothing released"""
    H = t.H; s = t.st; X = H.X; M = chk.M
    for e in t.new():
        if e.kind in ("uaf", "double_free"): chk.fact(R + ".released", s, False, fn=e.fn, line=e.line, what="memory is %s after a callback released it" % ("accessed" if e.kind == "uaf" else "released again"), key="released-" + e.kind)
    chk.obls[R + ".released"] = chk.obls.get(R + ".released", 0) + 1; chk.proved += 1
    freed = set(s.norm(e.args[0].e) for e in t.new() if e.kind == "free")
    if H.role == "pub":
        ls = [(X.Q, "pub_packet_list"), (X.I, "pub_packet_list"), (X.L, "pub_sub_list")]
        ms, bad = X.members(s)
        if not bad: ls += [(s.norm(u) + M.member("pub_subscriber", "inflight")[0], "pub_packet_list") for u in ms]
    else:
        ls = [(X.dr, "sub_packet_list"), (X.al, "rmc_index_list")] + [(X.pub(i) + M.member("sub_publisher", f)[0], l) for i in range(H.n()) for f, l in (("received_pid", "sub_packet_list"), ("received_interval", "sub_pid_interval_list"))]
    for L, ty in ls:
        ns, bad = rdlist(chk, H.ip, s, L, ty)
        chk.fact(R + ".lists", s, not bad, fn=t.fn, what="a list is broken after a callback used the library (%s)" % bad, key="lists")
        if bad or ty not in ("pub_packet_list", "sub_packet_list"): continue
        held = [content(H.ip, s, lt(M, ty), n) for n in ns]
        chk.fact(R + ".listed", s, not any(s.norm(p) in freed for p in held), fn=t.fn, what="a packet that was released is still on a list", key="listed")

def published(chk, R, t):
    """what was published from callbacks waits, was sent, or was released: once each, with consecutive ids"""
    H = t.H; s = t.st; X = H.X; ip = H.ip; n = 0
    ds = did(t, "publish")
    states = [(s, [])]
    for e in ds:
        nx = []
        for q, acc in states:
            for q1, r in evals(q, lambda z: ip.view(z, e.ret, "s")):
                nx += [(q2, acc + [y]) for q2, y in splits(q1, EQ(r, 0))]
        states = nx
    for e in ds:
        for q, (r, sus) in evals(s, lambda z: (ip.view(z, e.ret, "s"), ip.view(z, e.x["sus"], "u"))):
            for q1, on in splits(q, EQ(sus, 0)):
                if on: chk.ob(R + ".accepted", q1, EQ(r, 0), fn=t.fn, what="a packet published from a callback is refused although traffic is not suspended", key="publish")
    for q, acc in states:
        Q, b1 = X.lst(q, "queued"); I, b2 = X.lst(q, "inflight")
        if b1 or b2: continue
        ids = []
        for e, ok in zip(ds, acc):
            n += ok
            here = [a for a in Q + I if q.entails(EQ(X.pf(q, a, "payload"), e.x["pay"]))]
            rel = [f for f in t.new() if (f.kind == "free" or f.kind == "cb" and f.name == "payload_free") and q.entails(EQ(f.args[0].e, e.x["pay"]))]
            chk.fact(R + ".published", q, len(here) + len(rel) == (1 if ok else 0), fn=t.fn, what="a packet published from a callback is %s" % (("lost" if not here and not rel else "kept twice") if ok else "kept although publishing it was refused"), key="published")
            for a in here:
                chk.ob(R + ".content", q, [EQ(X.pf(q, a, "payload_len"), e.x["len"])], fn=t.fn, what="a packet published from a callback does not keep its length", key="content")
                ids.append((sum(acc[:ds.index(e)]), X.pf(q, a, "pid")))
        for k, p in ids: chk.ob(R + ".ids", q, EQ(p, X.next_pid + k), fn=t.fn, what="packets published from callbacks do not get consecutive ids", key="ids")
        chk.ob(R + ".ids", q, EQ(H.ip.view(q, ip.load(q, X.pc + chk.M.member("pub_context", "next_pid")[0], 8, mem=q.mem, peek=True), "u"), X.next_pid + sum(acc)), fn=t.fn, what="ids are skipped or given twice when packets are published from callbacks", key="next")
        ctx = lambda z, f: H.ip.view(z, val(H.ip, z, H.ctx, H.struct, f), "u")
        for q1, (was, now, back) in evals(q, lambda z: (H.ip.view(z, ds[-1].x["off"], "u"), ctx(z, "traffic_suspended"), ctx(z, "traffic_resume_threshold"))):
            for q2, on in splits(q1, EQ(was, 0)):
                if on: chk.ob(R + ".suspended", q2, EQ(now, 0), fn=t.fn, what="traffic is suspended after a callback could still publish", key="suspended-none")
                elif q2.try_assume([LT(back, len(I))]): chk.ob(R + ".suspended", q2, NE(now, 0), fn=t.fn, what="traffic that a callback's packet suspended is resumed while too many packets are outstanding", key="suspended")
        ps = [X.pf(q, a, "pid") for a in Q]
        for a, b in zip(ps, ps[1:]): chk.ob(R + ".order", q, LE(a, b), fn=t.fn, what="packets published from callbacks wait out of order", key="order")
        # every outstanding packet is tracked and its count of missing acknowledgements right
        ms, bad = X.members(q)
        if bad: continue
        lack = {}
        for u in ms:
            ns, bad = rdlist(chk, ip, q, q.norm(u) + chk.M.member("pub_subscriber", "inflight")[0], "pub_packet_list")
            for nn in ns if not bad else []:
                a = q.norm(content(ip, q, lt(chk.M, "pub_packet_list"), nn)); lack[a] = lack.get(a, 0) + 1
        for a in I: chk.ob(R + ".tracked", q, EQ(X.pf(q, a, "ref_count"), lack.get(q.norm(a), 0)), fn=t.fn, what="a sent packet is not outstanding for exactly as many subscribers as it counts", key="tracked")
        chk.fact(R + ".tracked", q, all(a in [q.norm(z) for z in I] for a in lack), fn=t.fn, what="an outstanding packet is not among the sent ones", key="tracked-kept")
    return n

def dispatched(chk, R, t):
    H = t.H; s = t.st; X = H.X; ip = H.ip; n = 0; freed = [e for e in t.new() if e.kind == "free" or e.kind == "cb" and e.name == "payload_free"]
    ready, bad = rdlist(chk, ip, s, X.dr, "sub_packet_list")
    held = [] if bad else [s.norm(content(ip, s, lt(chk.M, "sub_packet_list"), z)) for z in ready]
    for e in did(t, "dispatched"):
        for q, r in evals(s, lambda z: ip.view(z, e.ret, "s")):
            n += 1
            chk.ob(R + ".dispatched", q, EQ(r, 0), fn=t.fn, what="a ready packet cannot be dispatched from a callback", key="dispatched")
            for what, p in (("payload", e.x["payload"]), ("record", e.x["pack"])):
                k = sum(1 for f in freed if q.entails(EQ(f.args[0].e, p)))
                chk.fact(R + ".once", q, k == 1, fn=t.fn, what="the %s of a packet dispatched from a callback is released %d times" % (what, k), key="once-" + what)
            chk.fact(R + ".gone", q, q.norm(e.x["pack"]) not in held, fn=t.fn, what="a packet dispatched from a callback is still ready", key="gone")
    return n

def said(chk, R, t):
    """bytes of the messages accepted stay queued"""
    H = t.H; s = t.st; ip = H.ip; n = 0
    ds = did(t, "message"); states = [(s, C(0))]
    if any(e.kind == "sys" and e.name == "writev" for e in t.new()): return 0
    idle = s.fork(); slot = t.slot if t.slot != MCAST else 0
    if slot is not None and idle.try_assume([EQ(H.use(t.s0, slot), 0)]) and idle.facts.feasible():
        for e in ds:
            for q, r in evals(idle, lambda z: ip.view(z, e.ret, "s")): chk.ob(R + ".accepted", q, EQ(r, 0), fn=t.fn, what="a control message sent from a callback is refused although nothing waits on the channel", key="message")
    for e in ds:
        nx = []
        for q, tot in states:
            for q1, r in evals(q, lambda z: ip.view(z, e.ret, "s")):
                nx += [(q2, tot + 1 + chk.M.size("cmd_control_message") + e.x["len"] if y else tot) for q2, y in splits(q1, EQ(r, 0))]
        states = nx
    for q, tot in states:
        if not q.norm(tot).t: continue
        if any(e.kind == "sys" and e.name == "close" for e in t.new()): continue
        u0 = u1 = C(0)
        for i in range(H.n()): u0 = u0 + H.use(t.s0, i); u1 = u1 + H.use(q, i)
        n += 1; chk.ob(R + ".said", q, EQ(u1, u0 + tot), fn=t.fn, what="a control message sent from a callback does not stay queued whole", key="said")
    return n

def A08(chk):
    R = "A08"; M = chk.M; big = chk.tier != "quick"; cnt = dict(publish=0, dispatched=0, message=0)
    chk.need("rmc_pub_queue_packet", "rmc_sub_packet_dispatched", "rmc_sub_get_next_dispatch_ready", "rmc_sub_write_control_message_by_address", "rmc_pub_read", "rmc_pub_write", "rmc_sub_read", "rmc_sub_write", "rmc_pub_timeout_process", "rmc_pub_close_connection")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2 connection slots)", ASSUME_RING, "an application makes at most %d calls from one callback; one datagram or one complete command arrives per operation" % MOST]
    def go(H, fn, args, slot=None, st=None):
        s0 = st or H.st.fork()
        H.ip.loglevel = 6               # everything is logged, so what log lines name is looked at too
        outs = [o for o in chk.run(H.ip, fn, args, s0.fork()) if not (o[0] == "abort" and out_of_memory(H.ip, o[1]))]
        for s, x in ends(chk, R, fn, outs, "context whose callbacks use it"):
            t = Trace(H, fn, s0, s, x, slot); t.args = args; t.args_out = None
            if not did(t): continue
            whole(chk, R, t); interest(chk, R + ".poll", t)
            if H.role == "pub": cnt["publish"] += published(chk, R, t)
            else: cnt["dispatched"] += dispatched(chk, R, t); cnt["message"] += said(chk, R, t)
            yield t
    def ok(t):
        for q, r in evals(t.st, lambda z: t.H.ip.view(z, t.x, "s")): chk.ob(R + ".result", q, EQ(r, 0), fn=t.fn, what="an operation fails because its callback used the library", key="result")
    def have(H, *names):
        for n in names: H.st.assume(NE(val(H.ip, H.st, H.ctx, H.struct, n).e, 0))
    # ---- publisher
    def pub(modes, names, queued=1, held=(), **kw):
        H = Host(chk, "pub", modes, queued=queued, held=list(held), **kw); H.ip.callback_hook = supplies(M); have(H, *names)
        for n in names: H.ip.reenter[n] = publishes(H)
        return H
    for nq in (0, 1):
        H = pub([CONNECTED, CLOSED], ["subscriber_connect_cb", "subscriber_disconnect_cb"], nq)
        for t in go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, LISTEN), op_res()], slot=LISTEN): ok(t)
        for held in ((), (frozenset([0]),), (frozenset([0]), frozenset([0, 1]))):
            if held and nq and not big: continue
            H = pub([CONNECTED, CONNECTED], ["subscriber_disconnect_cb", "payload_free"], nq, held)
            for t in go(H, "rmc_pub_close_connection", [V(64, H.ctx), VC(16, H.ix(0))], slot=0): ok(t)
            H = pub([CONNECTED, CONNECTED], ["subscriber_disconnect_cb", "payload_free"], nq, held, opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [32])))
            for t in go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, H.ix(0)), op_res()], slot=0): ok(t)
        # a command arrives
        for held in ((), (frozenset([0]),)):
            H = pub([CONNECTED, CLOSED], ["subscriber_control_message_cb", "payload_free"], nq, held)
            c = H.conn(0) + M.member(CN, "read_buf")[0]; u, p = models.cb_get(H.ip, H.st, c)
            def room(s, e, u=u, H=H): return s.try_assume([LE(u + H.ip.view(s, e.ret, "s"), 1 + M.size("cmd_ack_interval"))])
            H.ip.opaque["readv"] = at_most(M, "readv", room); H.st.assume(LE(u, 16))
            for t in go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, H.ix(0)), op_res()], slot=0): pass
        # acknowledgements release packets one after the other
        for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
            if kind != "ack": continue
            for held in ((frozenset([0]),), (frozenset([0]),) * 2, (frozenset([0, 1]), frozenset([0]))):
                if nq and len(held) > 1 and not big: continue
                H = pub([CONNECTED, CONNECTED], ["payload_free"], nq, held); X = H.X; X.ip.maxunroll = 24
                for k, (a, d) in enumerate(X.infl):
                    d["pid"] = C(k + 1); put(X.ip, X.st, a + M.member("pub_packet", "pid")[0], V(64, C(k + 1)))
                X.next_pid = C(len(held) + 1 + nq); setf(X.ip, X.st, X.pc, "pub_context", "next_pid", V(64, X.next_pid))
                for k, (a, d) in enumerate(X.que):
                    d["pid"] = X.next_pid - 1; put(X.ip, X.st, a + M.member("pub_packet", "pid")[0], V(64, d["pid"]))
                st = X.st.fork(); u0, p0 = models.cb_get(X.ip, st, H.conn(0) + M.member(CN, "read_buf")[0]); st.assume(GE(u0, 1 + M.size("cmd_ack_interval")))
                for t in go(H, h, [V(64, H.conn(0)), V(64, H.ctx)], slot=0, st=st): ok(t)
        # sending releases what nobody subscribes to
        H = pub([CLOSED, CLOSED], ["payload_free"], nq + 1)
        for t in go(H, "rmc_pub_write", [V(64, H.ctx), VC(16, MCAST), op_res()], slot=MCAST): pass
        H = pub([CONNECTED, CLOSED], ["announce_cb", "payload_free"], nq, [frozenset([0])])
        for t in go(H, "rmc_pub_timeout_process", [V(64, H.ctx)]): pass
    # ---- subscriber
    def where(H, i): return lambda st, args: (V(32, H.cf(st, i, "remote_address")), V(16, H.cf(st, i, "remote_port")))
    def given(st, args): return (args[1], args[2])
    for modes in ([CONNECTING, CLOSED], [CONNECTED, CONNECTING]):
        H = Host(chk, "sub", modes); have(H, "subscription_complete_cb"); i = modes.index(CONNECTING)
        H.ip.reenter["subscription_complete_cb"] = says(H, given)
        for t in go(H, "rmc_sub_write", [V(64, H.ctx), VC(16, H.ix(i)), op_res()], slot=i): ok(t)
    for pend in (False, True):
        for held in (0, 1):
            for chan_ in ("mcast", "tcp"):
                H = Host(chk, "sub", [CONNECTED, CLOSED], pend=[pend, False], held=held, ready=1 if held else 0); have(H, "packet_ready_cb")
                H.ip.reenter["packet_ready_cb"] = both(says(H, where(H, 0)), dispatches(H, chk))
                if chan_ == "mcast":
                    H.ip.opaque["recvfrom"] = at_most(M, "recvfrom", lambda s, e: True)
                    for t in go(H, "rmc_sub_read", [V(64, H.ctx), VC(16, MCAST), op_res()], slot=MCAST): ok(t)
                else:
                    c = H.conn(0) + M.member(CN, "read_buf")[0]; u, p = models.cb_get(H.ip, H.st, c)
                    def room(s, e, u=u, H=H): return s.try_assume([LE(u + H.ip.view(s, e.ret, "s"), 2 * (1 + M.size("packet_header")) - 1)])
                    H.ip.opaque["readv"] = at_most(M, "readv", room); H.st.assume(LE(u, 40))
                    for t in go(H, "rmc_sub_read", [V(64, H.ctx), VC(16, H.ix(0)), op_res()], slot=0): pass
    for k, v in cnt.items(): chk.fact(R + ".present", State(), v > 0, fn="rmc_pub_queue_packet" if k == "publish" else "rmc_sub_packet_dispatched" if k == "dispatched" else "rmc_sub_write_control_message_by_address", what="no callback that uses the library could be followed (%s)" % k, key="present-" + k)

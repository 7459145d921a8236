"""S01-S03: how a subscriber orders, deduplicates and records packets, on explicit small publisher states."""
from rules.shapes import *
from rules.dgram import Dgram
from rules import cmds

PIDMAX = 1 << 62
class Pub:
    """a publisher with n held packets (strictly ascending ids above the last ready one) and m pending ack intervals"""
    def __init__(s, chk, n=0, m=0, base=None, opaque=None, ready=0):
        M = chk.M; s.chk = chk; s.M = M; s.n = n; s.m = m
        s.ip = shape_interp(chk, opaque); st = s.st = State()
        s.p = cell("pub", "sub_publisher", M.size("sub_publisher"))
        s.rp = s.p + M.member("sub_publisher", "received_pid")[0]; s.ri = s.p + M.member("sub_publisher", "received_interval")[0]
        s.pids = []; s.packs = []; s.f0 = []
        for i in range(n): s.newpack(i)
        st, s.nodes = mklist(chk, s.ip, st, s.rp, "sub_packet_list", [V(64, p) for p in s.packs])
        ti = s.ti = lt(M, "sub_pid_interval_list"); io = [M.member("sub_pid_interval", f)[0] for f in ("first_pid", "last_pid", "receive_ts")]
        s.io = io; s.iv = []
        for i in range(m):
            f, l, t = (S(new_sym("%s%d" % (q, i), 1, PIDMAX)) for q in ("first", "last", "ts")); s.iv.append((f, l, t))
            st.assume(LE(f, l))
            if i: st.assume(LE(s.iv[i - 1][1] + 2, f))
        s.st = st
        st, s.inodes = mklist(chk, s.ip, st, s.ri, "sub_pid_interval_list", [s.ivdata(i) for i in range(m)])
        s.maxr = C(0) if base == 0 else S(new_sym("max_pid_ready", 1, PIDMAX))
        setf(s.ip, st, s.p, "sub_publisher", "max_pid_ready", V(64, s.maxr))
        s.maxrec = S(new_sym("max_pid_received", 0, PIDMAX)); setf(s.ip, st, s.p, "sub_publisher", "max_pid_received", V(64, s.maxrec))
        for i in range(n):
            st.assume(GE(s.pids[i], (s.pids[i - 1] if i else s.maxr) + 1)); st.assume(LE(s.pids[i], s.maxrec))
        s.dr = cell("ready", "_sub_packet_list", M.size("_sub_packet_list"))
        s.rpacks = [cell("old%d" % i, "sub_packet", M.size("sub_packet")) for i in range(ready)]
        st, s.rnodes = mklist(chk, s.ip, st, s.dr, "sub_packet_list", [V(64, p) for p in s.rpacks])
        s.st = st
    def newpack(s, i):
        M = s.M; a = cell("pack%d" % i, "sub_packet", M.size("sub_packet"))
        pid = S(new_sym("pid%d" % i, 1, PIDMAX)); s.pids.append(pid); s.packs.append(a)
        d = dict(pid=pid, payload=S(new_sym("payload%d" % i, 1 << 20, 1 << 47, "val")), payload_len=S(new_sym("len%d" % i, 0, 65535)), publisher=s.p, pkg_user_data=S(new_sym("ud%d" % i, 0, 1 << 32)))
        for k, v in d.items(): setf(s.ip, s.st, a, "sub_packet", k, v if not isinstance(v, Lin) else V(8 * M.member("sub_packet", k)[1]["size"], v))
        s.f0.append(d)
    def ivdata(s, i):
        def f(node):
            for o, v in zip(s.io, s.iv[i]): put(s.ip, s.st, node + o, V(64, v))
        return f
    def held(s, st): return rdlist(s.chk, s.ip, st, s.rp, "sub_packet_list")
    def ivs(s, st):
        ns, bad = rdlist(s.chk, s.ip, st, s.ri, "sub_pid_interval_list")
        return [tuple(st.norm(s.ip.load(st, n + o, 8, mem=st.mem, peek=True).e) for o in s.io) for n in ns], bad
    def pfield(s, st, a, f):
        off, m = s.M.member("sub_packet", f)
        return st.norm(s.ip.load(st, st.norm(a) + off, m["size"], mem=st.mem, peek=True).e)
    def data(s, st, n): return content(s.ip, st, lt(s.M, "sub_packet_list"), n)

def bad_ends(chk, R, fn, outs):
    for k, s, x in outs:
        if k in ("fault", "abort"): chk.fact(R + ".ends", s, False, fn=fn, what="%s %s on a well-formed publisher" % (fn, "can fault: %s" % (x,) if k == "fault" else "stops the process"), key="ends")
        else:
            for e in s.events():
                if e.kind in ("uaf", "double_free"): chk.fact(R + ".uaf", s, False, fn=e.fn, line=e.line, what="%s touches memory after releasing it" % fn, key="uaf")
    return [(s, x) for k, s, x in outs if k == "ret"]

# ------------------------------------------------------------------------------------------------ S01
def same_record(chk, R, P, s, i, fn):
    for f, v in P.f0[i].items():
        chk.ob(R + ".record", s, EQ(P.pfield(s, P.packs[i], f), v), fn=fn, what="a packet's %s changes while it is held" % f, key="rec-" + f)

def process(chk, N):
    fn = "sub_process_received_packets"; R = "S01"
    for base in (1, 0):
        for n in range(N + 1) if base else range(2):
            for r in (0, 2) if n < 3 else (1,):
                P = Pub(chk, n, base=base, ready=r)
                for s, x in bad_ends(chk, R, fn, chk.run(P.ip, fn, [V(64, P.p), V(64, P.dr)], P.st.fork())):
                    held, b1 = P.held(s); rdy, b2 = rdlist(chk, P.ip, s, P.dr, "sub_packet_list")
                    chk.fact(R + ".lists", s, not b1 and not b2, fn=fn, what="a packet queue is damaged: %s" % (b1 or b2), key="lists")
                    if b1 or b2: continue
                    H = [P.data(s, q) for q in held]; D = [P.data(s, q) for q in rdy]
                    todo = [(s, 0, P.maxr if base else (P.pids[0] - 1 if n else C(0)))]
                    while todo:
                        s1, k, m = todo.pop()
                        if k < n:
                            more = splits(s1, EQ(P.pids[k], m + 1))
                            for s2, nxt in more:
                                if nxt: todo.append((s2, k + 1, m + 1))
                            rest = [s2 for s2, nxt in more if not nxt]
                            if not rest: continue
                            s1 = rest[0]
                        chk.fact(R + ".ready", s1, len(D) == r + k, fn=fn, what="with %d held packets, %d packets become ready where %d should" % (n, len(D) - r, k), key="ready")
                        if len(D) == r + k:
                            chk.fact(R + ".order", s1, D == [s1.norm(q) for q in P.rpacks + P.packs[:k]], fn=fn, what="packets do not enter the ready queue in order, behind what is there", key="order")
                        chk.fact(R + ".held", s1, H == [s1.norm(q) for q in P.packs[k:]], fn=fn, what="not exactly the packets waiting for predecessors stay held, in order", key="held")
                        chk.ob(R + ".max", s1, EQ(vale(P.ip, s1, P.p, "sub_publisher", "max_pid_ready"), m), fn=fn, what="the last ready id is not that of the last packet made ready", key="max")
                        for i in range(n): same_record(chk, R, P, s1, i, fn)

def record(chk, N):
    fn = "sub_packet_received"; R = "S01"
    for base in (1, 0):
        for n in range(N + 1) if base else range(1):
            for flag in (0, 1):
                P = Pub(chk, n, base=base); st = P.st.fork()
                pid = S(new_sym("pid", 1, PIDMAX)); pay = S(new_sym("payload", 1 << 20, 1 << 47, "val")); ln = S(new_sym("payload_len", 0, 65535)); ud = S(new_sym("user_data", 0, 1 << 40))
                st.assume(GE(pid, P.maxr + 1))
                todo = [st]
                for q in P.pids: todo = [c for a in todo for c in two(a, pid, q)]
                for st1 in todo:
                    args, by = chk.arg_syms(fn, pub=V(64, P.p), pid=V(64, pid), payload=V(64, pay), payload_len=V(16, ln), store_receive_interval_data=VC(8, flag))
                    args[-1] = V(64, ud)
                    for s, x in bad_ends(chk, R, fn, chk.run(P.ip, fn, args, st1)):
                        held, b = P.held(s)
                        chk.fact(R + ".lists", s, not b, fn=fn, what="the queue of held packets is damaged: %s" % b, key="lists")
                        if b: continue
                        H = [P.data(s, q) for q in held]; old = [s.norm(q) for q in P.packs]
                        new = [h for h in H if h not in old]
                        chk.fact(R + ".recorded", s, len(new) == 1 and [h for h in H if h in old] == old, fn=fn, what="a received packet is not recorded exactly once, next to the packets already held", key="recorded")
                        if len(new) != 1: continue
                        for f, v in (("pid", pid), ("payload", pay), ("payload_len", ln), ("publisher", P.p), ("pkg_user_data", ud)):
                            chk.ob(R + ".fields", s, EQ(P.pfield(s, new[0], f), v), fn=fn, what="a received packet is recorded with another %s" % f, key="field-" + f)
                        for i in range(n): same_record(chk, R, P, s, i, fn)
                        ps = [P.pfield(s, h, "pid") for h in H]
                        for a, b in zip(ps, ps[1:]): chk.ob(R + ".sorted", s, LE(a + 1, b), fn=fn, what="held packets are not kept in ascending order of their ids", key="sorted")
                        chk.ob(R + ".max", s, EQ(vale(P.ip, s, P.p, "sub_publisher", "max_pid_ready"), P.maxr), fn=fn, what="recording a packet changes which packets count as ready", key="max")
def two(a, x, y):
    out = []
    for c in (GE(x, y + 1), LE(x + 1, y)):
        t = a.fork()
        if t.try_assume([c]) and t.facts.feasible(): out.append(t)
    return out

def ready_queue(chk):
    """the application-facing half: first in, first out, and the accessors show the record"""
    R = "S01"; M = chk.M
    for n in (0, 1, 2, 300):
        ip = shape_interp(chk); st = State(); ctx = cell("ctx", "rmc_sub_context", M.size("rmc_sub_context"))
        dr = ctx + M.member("rmc_sub_context", "dispatch_ready")[0]
        packs = [cell("pack%d" % i, "sub_packet", M.size("sub_packet")) for i in range(n)]
        st, nodes = mklist(chk, ip, st, dr, "sub_packet_list", [V(64, p) for p in packs])
        fn = "rmc_sub_get_next_dispatch_ready"
        for s, x in bad_ends(chk, R, fn, chk.run(ip, fn, [V(64, ctx)], st.fork())):
            chk.ob(R + ".next", s, EQ(x.e, packs[0] if n else C(0)), fn=fn, what="the next ready packet is not the one that became ready first", key="next")
            got, bad = rdlist(chk, ip, s, dr, "sub_packet_list")
            chk.fact(R + ".next.keeps", s, not bad and got == [s.norm(q) for q in nodes], fn=fn, what="asking for the next ready packet changes the ready queue", key="next-keeps")
        fn = "rmc_sub_get_dispatch_ready_count"
        for s, x in bad_ends(chk, R, fn, chk.run(ip, fn, [V(64, ctx)], st.fork())):
            chk.ob(R + ".count", s, EQ(ip.view(s, x, "u"), n), fn=fn, what="the ready count is not the number of ready packets", key="count")
    for fn, f in (("rmc_sub_packet_payload_len", "payload_len"), ("rmc_sub_packet_payload", "payload"), ("rmc_sub_packet_index", "pkg_user_data")):
        if not M.defined(fn): continue
        ip = chk.interp(); st = State(); p = fresh_obj("pack", "sub_packet")
        v = val(ip, st, p, "sub_packet", f)
        for s, x in bad_ends(chk, R, fn, chk.run(ip, fn, [V(64, p)], st)):
            for s1, e in evals(s, lambda q: (ip.view(q, x, "u"), ip.view(q, V(16, v.e, "m") if f == "pkg_user_data" else v, "u") if f != "payload" else q.norm(v.e))):
                if f == "pkg_user_data":
                    w = ip.load(s1, p + M.member("sub_packet", f)[0], 2, peek=True)
                    for s2, z in evals(s1, lambda q: (ip.view(q, x, "u"), ip.view(q, w, "u"))):
                        chk.ob(R + ".accessor", s2, EQ(z[0], z[1]), fn=fn, what="a packet's publisher index is not the one recorded with it", key="acc-" + f)
                else: chk.ob(R + ".accessor", s1, EQ(e[0], e[1]), fn=fn, what="a packet's %s is not the one recorded with it" % f, key="acc-" + f)

def tail_process(chk, R, ip, s, pub, ctx, rec, since, fn, chan):
    """after a packet was recorded, ready packets of that publisher are moved to the context's ready queue"""
    M = chk.M; pr = [e for e in since if e.kind in ("opq", "call") and e.name == "sub_process_received_packets"]
    ok = [e for e in pr if s.entails(EQ(e.args[0].e, pub)) and s.entails(EQ(e.args[1].e, ctx + M.member("rmc_sub_context", "dispatch_ready")[0]))]
    if not ok:      # leaving that out is right only where nothing can have become ready
        pid, mr = rec.args[1].e, at(ip, s, rec, pub, "sub_publisher", "max_pid_ready")
        bad = [t for t in (s.fork() for _ in range(2))]
        for t, c in zip(bad, (EQ(mr, 0), EQ(pid, mr + 1))):
            if t.try_assume([c]) and t.facts.feasible(): chk.fact(R + ".moved." + chan, t, False, fn=fn, what="after a packet was received, the publisher's packets that became ready are not moved to the ready queue", key="moved-" + chan)
        return ok
    chk.fact(R + ".moved." + chan, s, bool(ok), fn=fn, what="after a packet was received, the publisher's packets that became ready are not moved to the ready queue", key="moved-" + chan)
    return ok

def channels(chk):
    """both channels hand every accepted packet to the publisher it came from, and then look for ready packets"""
    R = "S01"; M = chk.M
    D = Dgram(chk, rmc_sub_packet_received=None, rmc_sub_schedule_acks=opq([None]), sub_oldest_unacknowledged_packet=opq([0, lambda ip, s: V(64, S(new_sym("oldest#%d" % uniq(), 1, 1 << 62)))]))
    n = 0
    P = D.ip
    for k, s, x in D.outs:
        if k not in ("ret", "back"): continue
        ev = s.events()
        for i, e in enumerate(ev):
            if e.kind not in ("opq", "call") or e.name != "sub_packet_received": continue
            look = [q for q in ev[:i] if q.name == "rmc_conn_find_by_address" and q.kind == "opq"]
            if not look: continue
            n += 1
            conn = look[-1].ret.e
            for s1, idx in evals(s, lambda q: P.view(q, val(P, q, conn, "rmc_connection", "connection_index"), "u")):
                pub = s1.norm(val(P, s1, D.ctx, "rmc_sub_context", "publishers").e) + idx * M.size("sub_publisher")
                chk.ob(R + ".who.mcast", s1, EQ(e.args[0].e, pub), fn=e.fn, line=e.line, what="a multicast packet is credited to another publisher", key="who-mcast")
                tail_process(chk, R, P, s1, pub, D.ctx, e, ev[i + 1:], e.fn, "mcast")
                for s2, z in evals(s1, lambda q: (P.view(q, V(16, e.args[6].e, "m"), "u"), idx)) if len(e.args) > 6 else []:
                    chk.ob(R + ".index.mcast", s2, EQ(z[0], z[1]), fn=e.fn, line=e.line, what="a multicast packet is recorded with another publisher index than the one it came from", key="index-mcast")
    chk.fact(R + ".present.mcast", State(), n > 0, fn="rmc_sub_read", what="multicast packets are never recorded", key="present-mcast")
    for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
        if kind != "packet": continue
        H = cmds.Handler(chk, role, h, cmds.OPAQUE); n = 0
        for k, s, x in H.run():
            if k != "ret": continue
            ev = s.events()
            for i, e in enumerate(ev):
                if e.kind not in ("opq", "call") or e.name != "sub_packet_received": continue
                n += 1
                pub = s.norm(val(H.ip, s, H.ctx, "rmc_sub_context", "publishers").e) + H.idx * M.size("sub_publisher")
                chk.ob(R + ".who.tcp", s, EQ(e.args[0].e, pub), fn=e.fn, line=e.line, what="a resent packet is credited to another publisher", key="who-tcp")
                tail_process(chk, R, H.ip, s, pub, H.ctx, e, ev[i + 1:], h, "tcp")
                for s2, z in evals(s, lambda q: H.ip.view(q, V(16, e.args[6].e, "m"), "u")) if len(e.args) > 6 else []:
                    chk.ob(R + ".index.tcp", s2, EQ(z, H.idx), fn=e.fn, line=e.line, what="a resent packet is recorded with another publisher index than the one it came from", key="index-tcp")
        chk.fact(R + ".present.tcp", State(), n > 0, fn=h, what="resent packets are never recorded", key="present-tcp")

def S01(chk):
    N = 3 if chk.tier == "quick" else 5
    chk.need("sub_process_received_packets", "sub_packet_received", "rmc_sub_get_next_dispatch_ready", "rmc_sub_read")
    chk.assume += [ASSUME_SHAPE + " (up to %d held packets)" % N, ASSUME_CB, ASSUME_RING, "packet ids stay below 2^62", "ready packets are looked for after every recorded packet (decided here), so held packets are above the last ready one"]
    process(chk, N); record(chk, min(N, 3)); ready_queue(chk); channels(chk)

# ------------------------------------------------------------------------------------------------ S02
def dup(chk, N):
    fn = "sub_packet_is_duplicate"; R = "S02"
    for base in (1, 0):
        for n in range(N + 1) if base else range(1):
            P = Pub(chk, n, base=base); st = P.st.fork(); pid = S(new_sym("pid", 1, PIDMAX))
            for s, x in bad_ends(chk, R, fn, chk.run(P.ip, fn, [V(64, P.p), V(64, pid)], st)):
                for s1, r in evals(s, lambda q: P.ip.view(q, x, "s")):
                    for s2, z in splits(s1, EQ(r, 0)):
                        if not z:
                            # must be a duplicate: contradict "not received before"
                            t = s2.fork(); ok = t.try_assume([GE(pid, P.maxr + 1)])
                            todo = [t] if ok else []
                            for q in P.pids: todo = [c for a in todo for c in two(a, pid, q)]
                            for t in todo:
                                if t.facts.feasible(): chk.fact(R + ".spurious", t, False, fn=fn, what="a packet that was not received before is taken for a duplicate (%d held packets)" % n, key="spurious")
                            if not todo: chk.fact(R + ".spurious", s2, True, fn=fn)
                        else:
                            if not base: chk.fact(R + ".first", s2, True, fn=fn); continue
                            chk.ob(R + ".missed.ready", s2, GE(pid, P.maxr + 1), fn=fn, what="a packet already made ready is not recognised as a duplicate", key="missed-ready")
                            for q in P.pids:
                                for s3, eq in splits(s2, EQ(pid, q)):
                                    if eq: chk.fact(R + ".missed.held", s3, False, fn=fn, what="a packet already held is not recognised as a duplicate (%d held packets)" % n, key="missed-held")
                    hd, b = P.held(s1)
                    chk.fact(R + ".pure", s1, not b and hd == [s1.norm(q) for q in P.nodes] and vale(P.ip, s1, P.p, "sub_publisher", "max_pid_ready") == s1.norm(P.maxr), fn=fn, what="looking for a duplicate changes the publisher", key="pure")

def unasked(chk, R, ip, s, ctx, conn, e, chan):
    """recording without asking is right only for an id above everything received"""
    pid = e.args[1 if e.name == "sub_packet_received" else 2].e
    for s1, idx in evals(s, lambda z: ip.view(z, val(ip, z, conn, "rmc_connection", "connection_index"), "u")):
        pub = s1.norm(val(ip, s1, ctx, "rmc_sub_context", "publishers").e) + idx * ip.M.size("sub_publisher")
        for s2, mr in evals(s1, lambda z: at(ip, z, e, pub, "sub_publisher", "max_pid_received")):
            t = s2.fork()
            if t.try_assume([LE(pid, mr)]) and t.facts.feasible(): chk.fact(R + ".asked." + chan, t, False, fn=e.fn, line=e.line, what="a packet is recorded without looking for a duplicate", key="asked-" + chan)

def dup_channels(chk):
    from rules.dgram import acts
    R = "S02"; M = chk.M
    D = Dgram(chk); n = 0
    for k, s, x in D.outs:
        if k not in ("ret", "back"): continue
        ev = s.events(); L = D.last(s)
        for i, e in enumerate(ev):
            if e.kind == "opq" and e.name in ("rmc_sub_packet_received", "sub_packet_received"):
                n += 1
                q = [d for d in ev[:i] if d.kind == "opq" and d.name == "sub_packet_is_duplicate"]
                rc = [d for d in ev[:i] if d.kind == "sys" and d.name == "recvfrom"]
                q = [d for d in q if rc and ev.index(d) > ev.index(rc[-1])]
                if not q:
                    conn = [c for c in ev[:i] if c.kind == "opq" and c.name == "rmc_conn_find_by_address"]
                    if conn: unasked(chk, R, D.ip, s, D.ctx, conn[-1].ret.e, e, "mcast")
                    continue
                d = q[-1]; conn = [c for c in ev[:i] if c.kind == "opq" and c.name == "rmc_conn_find_by_address"]
                pid = e.args[1 if e.name == "sub_packet_received" else 2].e
                chk.ob(R + ".asked.mcast.zero", s, [EQ(d.ret.e, 0), EQ(d.args[1].e, pid)], fn=e.fn, line=e.line, what="a multicast packet is recorded although it is a duplicate", key="zero-mcast")
                if conn:
                    for s1, idx in evals(s, lambda z: D.ip.view(z, val(D.ip, z, conn[-1].ret.e, "rmc_connection", "connection_index"), "u")):
                        pub = s1.norm(val(D.ip, s1, D.ctx, "rmc_sub_context", "publishers").e) + idx * M.size("sub_publisher")
                        chk.ob(R + ".asked.mcast.who", s1, EQ(d.args[0].e, pub), fn=d.fn, line=d.line, what="duplicates of a multicast packet are looked for at another publisher", key="dupwho-mcast")
        if L is None: continue
        rc, after, buf = L
        q = [d for d in after if d.kind == "opq" and d.name == "sub_packet_is_duplicate"]
        if q and s.norm(q[-1].ret.e) == C(1):
            a = acts(s, after, D)
            chk.fact(R + ".discard.mcast", s, not a, fn=q[-1].fn, line=a[0].line if a else None, what="a duplicate multicast packet has an effect: %s" % (a[0].name or "a store" if a else ""), key="discard-mcast")
            if k == "ret": chk.ob(R + ".discard.mcast.ok", s, EQ(0, 0), fn=q[-1].fn)
    chk.fact(R + ".present.mcast", State(), n > 0, fn="rmc_sub_read", what="multicast packets are never recorded", key="present-mcast")
    for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
        if kind != "packet": continue
        H = cmds.Handler(chk, role, h, cmds.OPAQUE); n = 0
        pub = None
        for k, s, x in H.run():
            if k != "ret": continue
            ev = s.events(); pub = s.norm(val(H.ip, s, H.ctx, "rmc_sub_context", "publishers").e) + H.idx * M.size("sub_publisher")
            q = [d for d in ev if d.kind == "opq" and d.name == "sub_packet_is_duplicate"]
            for e in ev:
                if e.kind == "opq" and e.name in ("sub_packet_received", "rmc_sub_packet_received"):
                    n += 1
                    if not q: unasked(chk, R, H.ip, s, H.ctx, H.conn, e, "tcp")
                    else:
                        chk.ob(R + ".asked.tcp.zero", s, [EQ(q[-1].ret.e, 0), EQ(q[-1].args[1].e, e.args[1 if e.name == "sub_packet_received" else 2].e), EQ(q[-1].args[0].e, pub)], fn=e.fn, line=e.line, what="a resent packet is recorded although it is a duplicate at its publisher", key="zero-tcp")
            if q and s.norm(q[-1].ret.e) == C(1):
                a = [e for e in cmds.effects(s)]
                chk.fact(R + ".discard.tcp", s, not a, fn=h, line=a[0].line if a else None, what="a duplicate resent packet has an effect: %s" % (a[0].name or "a store" if a else ""), key="discard-tcp")
        chk.fact(R + ".present.tcp", State(), n > 0, fn=h, what="resent packets are never recorded", key="present-tcp")

def S02(chk):
    N = 3 if chk.tier == "quick" else 5
    chk.need("sub_packet_is_duplicate", "rmc_sub_read")
    chk.assume += [ASSUME_SHAPE + " (up to %d held packets)" % N, ASSUME_CB, ASSUME_RING, "packet ids stay below 2^62", "held packets are sorted, distinct and above the last ready id (decided by S01)"]
    dup(chk, N); dup_channels(chk)

# ------------------------------------------------------------------------------------------------ S03
def intervals(chk, N):
    fn = "sub_packet_add_to_received_interval"; R = "S03"
    for m in range(N + 1):
        P = Pub(chk, 0, m); st0 = P.st.fork(); pid = S(new_sym("pid", 1, PIDMAX))
        todo = [(st0, 0)]; starts = []
        # every position of an id that is not covered yet: index of the first interval above it
        for i in range(m + 1):
            t = st0.fork(); cons = []
            if i: cons.append(GE(pid, P.iv[i - 1][1] + 1))
            if i < m: cons.append(LE(pid + 1, P.iv[i][0]))
            if t.try_assume(cons) and t.facts.feasible(): starts.append((t, i))
        for st, i in starts:
            for s, x in bad_ends(chk, R, fn, chk.run(P.ip, fn, [V(64, P.p), V(64, pid)], st)):
                got, bad = P.ivs(s)
                chk.fact(R + ".lists", s, not bad, fn=fn, what="the list of intervals is damaged: %s" % bad, key="lists")
                if bad: continue
                nows = [s.norm(e.ret.e) for e in s.events() if e.kind == "now"]
                for s1, lo in (splits(s, EQ(P.iv[i - 1][1] + 1, pid)) if i else [(s, False)]):
                    for s2, hi in (splits(s1, EQ(pid + 1, P.iv[i][0])) if i < m else [(s1, False)]):
                        a, b = P.iv[:max(0, i - 1)] if lo else P.iv[:i], P.iv[i + 1:] if hi else P.iv[i:]
                        mid = (P.iv[i - 1][0] if lo else pid, P.iv[i][1] if hi else pid)
                        want = [(q[0], q[1]) for q in a] + [mid] + [(q[0], q[1]) for q in b]
                        chk.fact(R + ".merged", s2, len(got) == len(want), fn=fn, what="recording an id with %d pending intervals leaves %d intervals where %d should be" % (m, len(got), len(want)), key="merged")
                        if len(got) != len(want): continue
                        for g, w in zip(got, want): chk.ob(R + ".cover", s2, [EQ(g[0], w[0]), EQ(g[1], w[1])], fn=fn, what="the pending intervals do not cover exactly the recorded ids, in order", key="cover")
                        for g, w in zip([g for j, g in enumerate(got) if j != len(a)], a + b): chk.ob(R + ".time.others", s2, EQ(g[2], w[2]), fn=fn, what="recording an id changes the receive time of an interval it does not touch", key="time-others")
                        ts = got[len(a)][2]
                        if lo and hi:
                            for s3, first in splits(s2, LE(P.iv[i - 1][2], P.iv[i][2])):
                                chk.ob(R + ".time.merged", s3, EQ(ts, P.iv[i - 1][2] if first else P.iv[i][2]), fn=fn, what="merging two intervals does not keep the earlier receive time", key="time-merged")
                        elif lo or hi:
                            chk.ob(R + ".time.extended", s2, EQ(ts, P.iv[i - 1][2] if lo else P.iv[i][2]), fn=fn, what="extending an interval changes its receive time", key="time-ext")
                        else:
                            ok = any(s2.entails(EQ(ts, q)) for q in nows)
                            if nows: chk.ob(R + ".time.new", s2, EQ(ts, ts) if ok else EQ(ts, nows[-1]), fn=fn, what="a new interval does not carry the time of receipt", key="time-new")
                            else: chk.unsure(R + ".time.new", fn, "receive time of a new interval", "no clock reading on the path")

def iv_flag(chk):
    """recording with the flag set records the id once; without it the intervals stay as they are"""
    fn = "sub_packet_received"; R = "S03"
    for flag in (0, 1):
        P = Pub(chk, 1, 1, opaque={"sub_packet_add_to_received_interval": opq([0])}); pid = S(new_sym("pid", 1, PIDMAX)); st = P.st.fork()
        st.assume(GE(pid, P.maxr + 1))
        for st1 in two(st, pid, P.pids[0]):
            args, by = chk.arg_syms(fn, pub=V(64, P.p), pid=V(64, pid), store_receive_interval_data=VC(8, flag))
            for s, x in bad_ends(chk, R, fn, chk.run(P.ip, fn, args, st1)):
                c = calls(s, "sub_packet_add_to_received_interval"); got, bad = P.ivs(s)
                chk.fact(R + ".flag", s, len(c) == flag, fn=fn, what="an id that %s be acknowledged is recorded %d times" % ("must" if flag else "must not", len(c)), key="flag")
                for e in c: chk.ob(R + ".flag.args", s, [EQ(e.args[0].e, P.p), EQ(e.args[1].e, pid)], fn=e.fn, line=e.line, what="another id is recorded for acknowledgement", key="flag-args")
                chk.fact(R + ".flag.else", s, not bad and got == [tuple(s.norm(z) for z in q) for q in P.iv], fn=fn, what="recording a packet changes the pending intervals otherwise", key="flag-else")

def iv_channels(chk):
    R = "S03"; M = chk.M; seen = set()
    D = Dgram(chk, rmc_sub_packet_received=None, rmc_sub_schedule_acks=opq([None]), sub_packet_add_to_received_interval=opq([0]), sub_oldest_unacknowledged_packet=opq([0, lambda ip, s: V(64, S(new_sym("oldest#%d" % uniq(), 1, 1 << 62)))]))
    n = 0
    for k, s, x in D.outs:
        if k not in ("ret", "back"): continue
        L = D.last(s)
        if L is None: continue
        rec = [e for e in L[1] if e.kind == "opq" and e.name == "sub_packet_received"]
        add = [e for e in L[1] if e.kind == "opq" and e.name == "sub_packet_add_to_received_interval"]
        if not rec: 
            chk.fact(R + ".mcast.nothing", s, not add, fn="rmc_sub_read", what="an id is recorded for acknowledgement although the packet was not kept", key="mcast-nothing"); continue
        n += 1
        total = C(len(add))
        for e in rec:
            for s1, f in evals(s, lambda q: D.ip.view(q, e.args[4], "u")):
                chk.ob(R + ".mcast.once", s1, [GE(f, 1)] if not add else [EQ(f, 0)], fn=e.fn, line=e.line, what="a packet received by multicast is not recorded for acknowledgement exactly once", key="mcast-once")
        chk.fact(R + ".mcast.single", s, len(rec) == 1 and len(add) <= 1, fn=rec[0].fn, line=rec[0].line, what="a packet received by multicast is recorded more than once", key="mcast-single")
    chk.fact(R + ".present.mcast", State(), n > 0, fn="rmc_sub_read", what="multicast packets are never recorded", key="present-mcast")
    op = dict(cmds.OPAQUE); op.pop("rmc_sub_packet_received"); op["rmc_sub_schedule_acks"] = opq([None]); op["sub_packet_add_to_received_interval"] = opq([0]); op["sub_oldest_unacknowledged_packet"] = opq([0])
    for role, code, h, kind in cmds.handlers(chk, cmds.tables(chk)):
        if kind != "packet": continue
        H = cmds.Handler(chk, role, h, op); n = 0
        for k, s, x in H.run():
            if k != "ret": continue
            for e in s.events():
                if e.kind == "opq" and e.name == "sub_packet_received":
                    n += 1
                    for s1, f in evals(s, lambda q: H.ip.view(q, e.args[4], "u")):
                        chk.ob(R + ".tcp.never", s1, EQ(f, 0), fn=e.fn, line=e.line, what="a packet resent over the control channel is recorded for acknowledgement", key="tcp")
                if e.kind == "opq" and e.name in ("sub_packet_add_to_received_interval", "rmc_sub_schedule_acks"):
                    chk.fact(R + ".tcp.never", s, False, fn=e.fn, line=e.line, what="a packet resent over the control channel is recorded for acknowledgement", key="tcp")
        chk.fact(R + ".present.tcp", State(), n > 0, fn=h, what="resent packets are never recorded", key="present-tcp")

def S03(chk):
    N = 3 if chk.tier == "quick" else 5
    chk.need("sub_packet_add_to_received_interval", "sub_packet_received", "rmc_sub_read")
    chk.assume += [ASSUME_SHAPE + " (up to %d pending intervals)" % N, ASSUME_CB, ASSUME_RING, "packet ids stay below 2^62", "the id is not covered yet: duplicates are discarded before (S02)"]
    intervals(chk, N); iv_flag(chk); iv_channels(chk)

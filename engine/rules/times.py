"""T01, T02: the deadlines and the pending-work reports, on explicit small contexts."""
from rules.shapes import *
from rules.pubq import Pubc, PC, ends, helds, queues, per, TSMAX, FAR
from rules.subio import Sub, SC, sorted_entry
from rules.subq import bad_ends
import itertools

EBUSY = 16
def result_cell(): return cell("result", None, 8)
def read(ip, s, a, size, view): return ip.view(s, ip.load(s, a, size, mem=s.mem, peek=True), view)

def quiet(chk, R, s, fn, allow, ip, st0):
    """a query tells nobody anything and changes nothing but what it was asked to fill in"""
    for e in s.events()[len(st0.events()):]:
        if e.kind in ("sys", "cb", "free"):
            chk.fact(R + ".pure", s, False, fn=e.fn, line=e.line, what="%s has a side effect: %s" % (fn, e.name or e.kind), key="pure-%s" % (e.name or e.kind))
        elif e.kind == "store" and isinstance(e.x, int):
            a = s.norm(e.args[0].e); b = keybase(a.t) if a.t else None
            if b is None or SYMS[b].kind not in ("heap", "base"): continue        # a private variable of the library
            if any(s.entails(GE(a, o)) and s.entails(LE(a + e.x, o + n)) for o, n in allow): continue
            for s1, d in evals(s, lambda z: z.norm(ip.view(z, ip.load(z, a, e.x, mem=z.mem, peek=True), "u") - ip.view(z, ip.load(z, a, e.x, mem=st0.mem, peek=True), "u"))):
                chk.ob(R + ".pure", s1, EQ(d, 0), fn=e.fn, line=e.line, what="%s changes something else than its result" % fn, key="pure-store")

def smallest(st, ts):
    out = [(st, None)]
    for t in ts:
        nx = []
        for s, m in out:
            if m is None: nx.append((s, t)); continue
            for s2, le in splits(s, LE(m, t)): nx.append((s2, m if le else t))
        out = nx
    return out

def T01(chk):
    R = "T01"; M = chk.M; big = chk.tier != "quick"; N = 3 if big else 2; n = 0
    chk.need("rmc_pub_timeout_get_next", "rmc_sub_timeout_get_next", "pub_get_oldest_unackowledged_packet", "rmc_pub_set_announce_interval")
    chk.assume += [ASSUME_SHAPE + " (up to %d packets, %d subscribers, 3 publishers with up to 3 intervals)" % (N, 3 if big else 2), "times stay below 2^61", "packets are sent in id order by a clock that does not go backwards",
                   "an announcement is scheduled exactly while an announce interval is set (P03)", "the list of pending acknowledgements is sorted (S04)"]
    slots = (0, 1, 2) if big else (0, 1)
    for k in range(N + 1):
        for held in helds(k, slots):
            for modes in ([CONNECTED] * len(slots), [CONNECTED if any(i in h for h in held) else CLOSED for i in slots]):
                X = Pubc(chk, queued=1 if k < 2 else 0, held=held, modes=modes); ip = X.ip; st = X.st
                # older packets do not always have the older time stamp for another subscriber's sake: keep them ascending
                fn = "pub_get_oldest_unackowledged_packet"
                st = X.st.fork(); out = result_cell()
                args, by = chk.arg_syms(fn, ctx=V(64, X.pc), timeout_ack=V(64, out))
                for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
                    old = [d["send_ts"] for j, (a, d) in enumerate(X.infl)]
                    for s1, m in smallest(s, old):
                        for s2, v in evals(s1, lambda z: read(ip, z, out, 8, "s")):
                            chk.ob(R + ".oldest", s2, EQ(v, m if m is not None else C(-1)), fn=fn, what="not the send time of the oldest unacknowledged packet%s" % (" (there is none)" if m is None else ""), key="oldest-%d" % (m is not None))
                fn = "rmc_pub_timeout_get_next"
                ann = vale(ip, X.st, X.ctx, PC, "announce_next_send_ts", "s"); rt = vale(ip, X.st, X.ctx, PC, "resend_timeout")
                iv = vale(ip, X.st, X.ctx, PC, "announce_send_interval")
                for on in (False, True):
                    st = X.st.fork(); out = result_cell()
                    if not st.try_assume([GE(ann, 1) if on else EQ(ann, 0), LE(ann, TSMAX), NE(iv, 0) if on else EQ(iv, 0)]): continue
                    args, by = chk.arg_syms(fn, ctx=V(64, X.ctx), result_ts=V(64, out)); args = [args[0], V(64, out)]
                    for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
                        for s0, r in evals(s, lambda z: ip.view(z, x, "s")): chk.ob(R + ".pub.ok", s0, EQ(r, 0), fn=fn, what="asking for the next timeout fails", key="pub-ok")
                        quiet(chk, R + ".pub", s, fn, [(out, 8)], ip, st)
                        for s1, m in smallest(s, [d["send_ts"] + rt for a, d in X.infl] + ([ann] if on else [])):
                            for s2, v in evals(s1, lambda z: read(ip, z, out, 8, "s")):
                                n += 1
                                chk.ob(R + ".pub", s2, EQ(v, m if m is not None else C(-1)), fn=fn, what="the publisher's next timeout is not the earliest of the next announcement and the oldest unacknowledged packet's resend time" if m is not None else "a timeout is reported although nothing is pending", key="pub-%s%s" % ("ann" if on else "", "ack" if X.infl else ""))
    # announcing switched on or off by the application
    X = Pubc(chk, held=[], modes=[CLOSED]); ip = X.ip; fn = "rmc_pub_set_announce_interval"
    ann = vale(ip, X.st, X.ctx, PC, "announce_next_send_ts", "s"); iv = vale(ip, X.st, X.ctx, PC, "announce_send_interval")
    for was in (False, True):
        st = X.st.fork()
        if not st.try_assume([GE(ann, 1) if was else EQ(ann, 0), LE(ann, TSMAX), NE(iv, 0) if was else EQ(iv, 0)]): continue
        args, by = chk.arg_syms(fn, ctx=V(64, X.ctx)); new = args[1].e
        for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
            now = [e for e in s.events() if e.kind == "now"]
            out = result_cell(); fn2 = "rmc_pub_timeout_get_next"
            for s1, on in splits(s, NE(new, 0)):
                for s2, x2 in ends(chk, R, fn2, chk.run(ip, fn2, [V(64, X.ctx), V(64, out)], s1)):
                    for s3, v in evals(s2, lambda z: read(ip, z, out, 8, "s")):
                        if not on: chk.ob(R + ".announce", s3, EQ(v, -1), fn=fn, what="a timeout for announcements is reported although announcing was switched off", key="announce-off")
                        else:
                            chk.ob(R + ".announce", s3, NE(v, -1), fn=fn, what="no timeout is reported although announcing was switched on", key="announce-on")
                            if now and not was: chk.ob(R + ".announce", s3, [GE(v, now[0].ret.e), LE(v, now[-1].ret.e + new)], fn=fn, what="the first announcement is not due within the interval", key="announce-first")
    # subscriber
    fn = "rmc_sub_timeout_get_next"; cases = [((), ())]
    cases += [((a,), (0,)) for a in ((1,), (2,), (3,))[:3]] 
    for iv in itertools.product((0, 1, 2), repeat=2):
        act = [i for i in (0, 1) if iv[i]]
        for order in itertools.permutations(act): cases.append((iv, order))
    if big:
        for iv in itertools.product((0, 1, 2), repeat=3):
            act = [i for i in range(3) if iv[i]]
            for order in itertools.permutations(act): cases.append((iv, order))
    for iv, order in cases:
        iv = [i if isinstance(i, int) else i[0] for i in iv] or [0]
        X = Sub(chk, ivs=iv, slots=len(iv), acks=order); ip = X.ip
        at_ = vale(ip, X.st, X.ctx, SC, "ack_timeout")
        for st, ms in sorted_entry(X, order):
            out = result_cell()
            for s, x in bad_ends(chk, R, fn, chk.run(ip, fn, [V(64, X.ctx), V(64, out)], st)):
                for s0, r in evals(s, lambda z: ip.view(z, x, "s")): chk.ob(R + ".sub.ok", s0, EQ(r, 0), fn=fn, what="asking for the next timeout fails", key="sub-ok")
                quiet(chk, R + ".sub", s, fn, [(out, 8)], ip, st)
                for s1, m in smallest(s, [ms[i] for i in order]):
                    for s2, v in evals(s1, lambda z: read(ip, z, out, 8, "s")):
                        n += 1
                        chk.ob(R + ".sub", s2, EQ(v, m + at_ if m is not None else C(-1)), fn=fn, what="the subscriber's next timeout is not the oldest unacknowledged packet's receive time plus the ack timeout" if m is not None else "a timeout is reported although nothing is pending", key="sub-%d" % (m is not None))
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="no timeout is ever reported", key="present")

def T02(chk):
    R = "T02"; M = chk.M; big = chk.tier != "quick"; N = 3 if big else 2; n = 0
    chk.need("rmc_pub_context_get_pending", "rmc_pub_context_has_pending_send", "rmc_pub_queue_length", "rmc_conn_get_pending_send_length")
    chk.assume += [ASSUME_SHAPE + " (up to %d packets, 3 slots)" % N, ASSUME_RING]
    fn = "rmc_pub_context_get_pending"
    wo = M.member("rmc_connection", "write_buf")[0]
    for modes in itertools.product((CLOSED, CONNECTED), repeat=3 if big else 2):
        open_ = [i for i, m in enumerate(modes) if m]
        for nq in (0, 1, 2) + ((300,) if modes[:2] == (CONNECTED, CONNECTED) else ()):
            for k in (range(0, (N if nq < 2 else 1) + 1) if nq < 300 else (0, 300)) if open_ else (0,):
                for held in helds(k, tuple(open_)) if k < 300 else [[frozenset([0])] * k]:
                    X = Pubc(chk, queued=nq, held=held, modes=list(modes), pad=FAR if open_ and (nq, k) == (1, 1) else 0); ip = X.ip
                    use = {}; neg_ = []
                    for i in open_:
                        u, p = models.cb_get(ip, X.st, X.conn(i) + wo); use[i] = u
                    for i in range(len(modes)):
                        fn2 = "rmc_pub_context_has_pending_send"
                        args, by = chk.arg_syms(fn2, ctx=V(64, X.ctx)); args[1] = VC(16, X.ix(i))
                        for s, x in ends(chk, R, fn2, chk.run(ip, fn2, args, X.st.fork())):
                            quiet(chk, R + ".has", s, fn2, [], ip, X.st)
                            for s1, r in evals(s, lambda z: ip.view(z, x, "s")):
                                if i not in open_: chk.ob(R + ".has", s1, NE(r, 0), fn=fn2, what="a closed connection is reported as having sent everything", key="has-closed"); continue
                                for s2, pend in splits(s1, GE(use[i], 1)):
                                    chk.ob(R + ".has", s2, EQ(r, EBUSY if pend else 0), fn=fn2, what="a connection with%s bytes waiting is not reported as %s" % ("" if pend else "out", "busy" if pend else "idle"), key="has-%d" % pend)
                        if i in open_:
                            fn3 = "rmc_conn_get_pending_send_length"; o = cell("len", None, 2)
                            for s, x in ends(chk, R, fn3, chk.run(ip, fn3, [V(64, X.conn(i)), V(64, o)], X.st.fork())):
                                for s1, v in evals(s, lambda z: read(ip, z, o, 2, "u")): chk.ob(R + ".length", s1, EQ(v, use[i]), fn=fn3, what="not the number of bytes waiting on the connection", key="length")
                    fn4 = "rmc_pub_queue_length"
                    for s, x in ends(chk, R, fn4, chk.run(ip, fn4, [V(64, X.ctx)], X.st.fork())):
                        for s1, v in evals(s, lambda z: ip.view(z, x, "u")): chk.ob(R + ".queue", s1, EQ(v, nq), fn=fn4, what="not the number of packets waiting to be multicast", key="queue")
                    for give in itertools.product((True, False), repeat=3):
                        if not all(give) and k > 1 and any(give): continue
                        st = X.st.fork(); o = [cell(q, None, 4) if g else None for q, g in zip(("queued", "bytes", "acks"), give)]
                        for q in o:
                            if q is not None: put(ip, st, q, V(32, S(new_sym("stale", 0, (1 << 32) - 1))), 4)
                        args, by = chk.arg_syms(fn, ctx=V(64, X.ctx)); args[1:4] = [V(64, q) if q is not None else V(64, C(0)) for q in o]
                        for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st)):
                            n += 1
                            quiet(chk, R + ".pending", s, fn, [(q, 4) for q in o if q is not None], ip, st)
                            tot = C(0)
                            for i in open_: tot = tot + use[i]
                            want = [C(nq), tot, C(sum(len(h) for h in X.held))]
                            for q, w, nm in zip(o, want, ("packets waiting to be multicast", "bytes waiting in control channels", "outstanding acknowledgements")):
                                if q is None: continue
                                for s1, v in evals(s, lambda z: read(ip, z, q, 4, "u")): chk.ob(R + ".pending", s1, EQ(v, w), fn=fn, what="the pending report does not give the number of %s" % nm, key="pending-" + nm.split()[0])
                            for s1, r in evals(s, lambda z: ip.view(z, x, "s")):
                                if nq or X.held: chk.ob(R + ".busy", s1, EQ(r, EBUSY), fn=fn, what="work is pending and not reported as busy", key="busy-1"); continue
                                for s2, b in splits(s1, GE(tot, 1)): chk.ob(R + ".busy", s2, EQ(r, EBUSY if b else 0), fn=fn, what="bytes are pending and not reported as busy" if b else "busy is reported with nothing pending", key="busy-%d" % b)
    chk.fact(R + ".present", State(), n > 0, fn=fn, what="the pending report never returns", key="present")

"""Multicast datagrams arriving at a subscriber: W04, and the datagram half of S02, S05, S06, S07."""
from rules.ctx import *
from rules.cmds import effects

RECV = "rmc_sub_read"
def found(ip, s):
    c = S(ptr_sym("found#%d" % uniq(), False, "rmc_connection", "base")); return V(64, c)
def recorded(ip, s, name, args, r): pass

def handed_out(ip, s, name, args, r):
    """a connection attempt hands back the index it got"""
    if s.norm(args[4].e).t: ip.store(s, args[4].e, V(16, S(new_sym("index#%d" % uniq(), 0, 0x7FFC))), 2)
class Dgram:
    """one call of rmc_sub_read on the multicast index; callees that touch subscriptions are recorded, not entered"""
    def __init__(s, chk, lookup=None, ready=None, **more):
        M = chk.M; s.chk = chk; s.M = M
        op = {"rmc_conn_find_by_address": opq(lookup or [0, found]), "rmc_conn_connect_tcp_by_address": opq([0, anyerr], effect=handed_out),
              "rmc_sub_packet_received": opq([0]), "sub_packet_received": opq([1]), "sub_packet_is_duplicate": opq([0, 1]),
              "sub_process_received_packets": ready or opq([None])}
        op.update(more)
        op = {k: v for k, v in op.items() if v}
        s.ip = chk.interp(field_inv=inv(), opaque=op); s.ip.rotate = True
        s.st = State(); s.ctx = fresh_obj("ctx", "rmc_sub_context"); s.opr = S(ptr_sym("op_res", False, None, "base"))
        s.fd = val(s.ip, s.st, s.ctx, "rmc_sub_context", "mcast_recv_descriptor").e
        args, by = chk.arg_syms(RECV, ctx=V(64, s.ctx), s_ind=VC(16, MCAST), op_res=V(64, s.opr))
        s.outs = chk.run(s.ip, RECV, args, s.st)
        s.H = M.size(HDR)
    def last(s, st):
        """(the last datagram received on the path, events after it, buffer address) or None"""
        ev = st.events(); k = None
        for i, e in enumerate(ev):
            if e.kind == "sys" and e.name == "recvfrom": k = i
        if k is None or not ev[k].x["ok"]: return None
        return ev[k], ev[k + 1:], ev[k].args[1].e
    def field(s, st, rc, name):
        """header field as received (before any substitution)"""
        o, m = s.M.member(HDR, name)
        return s.ip.app_val((rc.x["tag"],), o, m["size"], False, None).e
    def src(s, st, rc):
        """datagram source address in host order (source sockaddr as the kernel filled it at this event)"""
        a = st.norm(rc.args[4].e)
        v = s.ip.load(st, a + 4, 4, mem=rc.mem, peek=True)
        return models.bswap(st, s.ip.view(st, v, "u"), 32)
    def got(s, st, rc): return s.ip.view(st, rc.ret, "s")

ALLOWED = ("poll_modify",)
def acts(st, since, D):
    out = []
    for e in since:
        if e.kind == "cb" and e.name in ALLOWED: continue
        if e.kind in ("opq", "cb", "alloc", "free", "link", "unlink", "nodefree") or (e.kind == "sys" and e.name != "recvfrom"): out.append(e)
        elif e.kind == "store":
            a = st.norm(e.args[0].e); b = keybase(a.t)
            if b is not None and SYMS[b].kind in ("base", "ptr") and a != D.opr and not (e.name == "errno"): out.append(e)
    return [e for e in out if not (e.kind == "opq" and e.name in ("rmc_conn_find_by_address", "sub_packet_is_duplicate"))]

def mentions(st, rc):
    """symbols standing for bytes of this datagram that decide the path or are passed on"""
    tag = rc.x["tag"]; out = {}
    syms = set()
    for c, w in st.facts.raw: syms |= set(c[1].syms())
    for e in st.events():
        if e.kind in ("opq", "cb", "store"):
            for a in e.args:
                if isinstance(a, V): syms |= set(st.norm(a.e).syms())
    for k, s_ in IP.MEMO.items():
        if k[0] == "app" and k[1] == (tag,) and (s_ in syms): out[s_] = (k[2], k[3])
    return out

def W04(chk):
    M = chk.M
    chk.need("rmc_sub_read")
    chk.assume += [ASSUME_CB, "recvfrom writes at most the bytes it reports; one call of rmc_sub_read is analysed with its loops over datagrams summarised"]
    D = Dgram(chk); H = D.H; n = 0; bad = 0
    seen = set()
    for k, s, x in D.outs:
        if k == "fault": chk.fact("W04.fault", s, False, what="receiving a datagram can fault: %s" % x, key="fault"); continue
        if k == "abort": chk.fact("W04.stops", s, out_of_memory(D.ip, s), fn=RECV, what="receiving a datagram stops the process although memory is available", key="stops"); continue
        rcs = [i for i, e in enumerate(s.events()) if e.kind == "sys" and e.name == "recvfrom"]
        if rcs and not s.events()[rcs[-1]].x["ok"]:
            a = acts(s, s.events()[rcs[-1] + 1:], D)
            chk.fact("W04.failed", s, not a, fn=RECV, line=a[0].line if a else None, what="a failed receive is treated as a datagram: %s" % (a[0].name if a and a[0].name else "a store"), key="failed"); continue
        L = D.last(s)
        if L is None: continue
        rc, after, buf = L; n += 1
        got = D.got(s, rc)
        chk.ob("W04.recv.room", s, LE(D.ip.view(s, rc.args[2], "u"), SYMS[keybase(s.norm(buf).t)].field if keybase(s.norm(buf).t) is not None and SYMS[keybase(s.norm(buf).t)].kind == "alloca" else C(1 << 40)), fn=rc.fn, line=rc.line, what="more bytes are received than the buffer holds", key="room")
        plen = D.field(s, rc, "payload_len")
        # everything looked at lies inside the datagram
        for sy, (o, sz) in mentions(s, rc).items():
            if (k, sy, id(s.trace)) in seen: continue
            chk.ob("W04.inside", s, GE(got, o + sz), fn=rc.fn, line=rc.line, what="bytes %d..%d of a datagram are interpreted although fewer were received" % (o, o + sz), key="inside-%d" % o)
        for e in after:
            if e.kind == "memcpy":
                sb = s.norm(e.args[1].e)
                if keybase(sb.t) == keybase(s.norm(buf).t) and keybase(sb.t) is not None:
                    rel = sb - s.norm(buf)
                    chk.ob("W04.copy", s, [GE(rel, 0), LE(rel + s.norm(e.args[2].e), got)], fn=e.fn, line=e.line, what="bytes beyond the datagram received are copied", key="copy")
                    if s.entails(LE(rel + s.norm(e.args[2].e), H)): continue     # a copy of the header itself
                    chk.ob("W04.copy.exact", s, [EQ(rel, H), EQ(s.norm(e.args[2].e), plen)], fn=e.fn, line=e.line, what="not exactly the announced payload bytes are copied", key="copy-exact")
            if e.kind == "cb" and e.name == "announce_cb":
                chk.ob("W04.announce", s, [EQ(e.args[4].e, buf + H), EQ(D.ip.view(s, e.args[5], "u"), plen), LE(plen + H, got)], fn=e.fn, line=e.line, what="the announce callback is not given exactly the announced payload", key="announce")
            if e.kind in ("opq", "call") and e.name in ("rmc_sub_packet_received", "sub_packet_received"):
                a = 0 if e.name == "sub_packet_received" else 1
                chk.ob("W04.packet", s, [EQ(D.ip.view(s, e.args[3 + a], "u"), plen), EQ(D.ip.view(s, e.args[1 + a], "u"), D.field(s, rc, "pid"))], fn=e.fn, line=e.line, what="a packet is recorded with another id or length than the datagram carries", key="packet")
                for s2, some in splits(s, GE(plen, 1)):
                    if not some: continue
                    hit = [q for q in after[:after.index(e)] if q.kind == "memcpy" and s2.entails(EQ(q.args[0].e, e.args[2 + a].e))]
                    chk.fact("W04.packet.filled", s2, bool(hit), fn=e.fn, line=e.line, what="a packet is recorded without its payload having been copied", key="filled")
        # malformed: no effect
        for s1, some in splits(s, GE(got, 1)):
            if not some: continue
            for s2, short in splits(s1, LT(got, H)):
                for s3, short2 in ([(s2, True)] if short else splits(s2, LT(got, plen + H))):
                    if not short2: continue
                    bad += 1
                    a = acts(s3, after, D)
                    chk.fact("W04.no-effect", s3, not a, fn=rc.fn, line=a[0].line if a else rc.line, what="a malformed datagram has an effect: %s" % (a[0].name if a and a[0].name else "a store"), key="effect")
                    if k == "ret":
                        for s4, r in evals(s3, lambda q: D.ip.view(q, x, "s")):
                            chk.ob("W04.eproto", s4, EQ(r, 71), fn=RECV, what="a malformed datagram is not reported as a protocol error", key="eproto")
                    elif k == "back" and id(s) in x.cont:
                        chk.fact("W04.eproto", s3, False, fn=RECV, what="receiving goes on after a malformed datagram without reporting it", key="eproto")
    chk.fact("W04.present", State(), n > 0, fn=RECV, what="no datagram is ever received", key="present")
    chk.fact("W04.present-bad", State(), bad > 0, fn=RECV, what="malformed datagrams are not told apart", key="present-bad")

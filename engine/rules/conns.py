"""K01-K04: descriptors, connection slots, connection states and poll interest, on explicit small connection tables with the real code."""
from rules.shapes import *
from rules.pubq import Pubc, PC, ends, FAR
from rules.subio import Sub, SC
from rules.chan import tcp_read_model
from rules.dgram import Dgram
import itertools

CV, CN = "rmc_connection_vector", "rmc_connection"
FDSYS = ("fcntl", "ioctl", "setsockopt", "getsockopt", "connect", "bind", "listen", "shutdown", "readv", "writev", "sendmsg", "recvfrom", "accept", "getsockname", "recv", "read", "write", "send", "recvmsg", "sendto")
INPROGRESS = 115

class Host:
    """a publisher or subscriber context with an explicit connection table"""
    free = False                # without callbacks: any of them may be missing (M02), instead of all of them
    def __init__(s, chk, role, modes, pend=None, active=True, cbs=True, slack=False, opaque=None, **kw):
        M = chk.M; s.chk = chk; s.M = M; s.role = role; s.modes = list(modes); s.active = active; s.cbs = cbs
        s.X = Pubc(chk, modes=s.modes, opaque=opaque, **kw) if role == "pub" else Sub(chk, slots=len(modes), modes=s.modes, opaque=opaque, **kw)
        s.ip = s.X.ip; st = s.st = s.X.st; s.ctx = s.X.ctx; s.cv = s.X.cv; s.struct = PC if role == "pub" else SC
        s.sock = [("mcast_send_descriptor", MCAST), ("listen_descriptor", LISTEN)] if role == "pub" else [("mcast_recv_descriptor", MCAST)]
        s.own = {}                      # descriptor -> registered (index, interest) or None
        s.pend = [bool(pend and pend[i]) and m == CONNECTED for i, m in enumerate(s.modes)]
        for i, m in enumerate(s.modes):
            c = s.conn(i)
            act = {CLOSED: 0, CONNECTING: WR, CONNECTED: RD | (WR if s.pend[i] else 0)}[m]
            setf(s.ip, st, c, CN, "action", VC(16, act))
            u, p = models.cb_get(s.ip, st, c + M.member(CN, "write_buf")[0])
            st.assume(GE(u, 1) if s.pend[i] else EQ(u, 0))
            if m == CLOSED:
                u, p = models.cb_get(s.ip, st, c + M.member(CN, "read_buf")[0]); st.assume(EQ(u, 0))
            if m: s.own[st.norm(s.X.desc[i])] = (s.ix(i), C(act)) if cbs else None
        for f, ind in s.sock:
            d = S(new_sym(f, 0, 1 << 20)) if active else C(-1)
            setf(s.ip, st, s.ctx, s.struct, f, V(32, d, "s"))
            if active: s.own[st.norm(d)] = (ind, C(WR) if ind == MCAST and kw.get("queued") else None) if cbs else None
        for a, b in itertools.combinations(list(s.own), 2): st.assume(NE(a, b))
        for f in ("poll_add", "poll_modify", "poll_remove"):
            v = val(s.ip, st, s.cv, CV, f).e
            if cbs or not Host.free: st.assume(NE(v, 0) if cbs else EQ(v, 0))
        if slack: setf(s.ip, st, s.cv, CV, "max_connection_ind", VC(16, s.ix(len(s.modes) - 1)))
        s.uds = [val(s.ip, st, s.ctx, s.struct, "user_data").e, val(s.ip, st, s.cv, CV, "user_data").e]
    def conn(s, i): return s.X.conn(i)
    def ix(s, i): return s.X.ix(i)
    def n(s): return len(s.modes)
    def cf(s, st, i, f, view="u", mem=None):
        off, m = s.M.member(CN, f)
        return st.norm(s.ip.view(st, s.ip.load(st, s.conn(i) + off, m["size"], mem=st.mem if mem is None else mem, peek=True), view))
    def sf(s, st, f): return st.norm(s.ip.view(st, s.ip.load(st, s.ctx + s.M.member(s.struct, f)[0], 4, mem=st.mem, peek=True), "s"))
    def use(s, st, i, which="write_buf"): return st.norm(models.cb_get(s.ip, st, s.conn(i) + s.M.member(CN, which)[0])[0])
    def slot_of(s, st, fd):
        for i in range(s.n()):
            if s.cf(st, i, "descriptor", "s") == fd: return i
        return None

BUSY = (1 << 20) + 1
def busy(H):
    """the slots below the explicit ones are all taken"""
    for i in range(H.X.pad):
        c = H.X.conns + i * H.M.size(CN)
        setf(H.ip, H.st, c, CN, "mode", VC(32, CONNECTED)); setf(H.ip, H.st, c, CN, "descriptor", V(32, C(BUSY + i), "s"))
    k = H.X.pad + sum(1 for m in H.modes if m)
    top = max([H.X.pad + i for i, m in enumerate(H.modes) if m], default=H.X.pad - 1)
    setf(H.ip, H.st, H.cv, CV, "active_connection_count", V(32, C(k))); setf(H.ip, H.st, H.cv, CV, "max_connection_ind", VC(16, top))

class Trace:
    """one finished call"""
    def __init__(s, H, fn, s0, st, x, slot=None, deleted=False): s.H = H; s.fn = fn; s.s0 = s0; s.st = st; s.x = x; s.slot = slot; s.deleted = deleted
    def new(s): return s.st.events()[len(s.s0.events()):]

def op_res(): return V(64, S(ptr_sym("op_res", True, None, "base")))
def out_index(): return V(64, S(ptr_sym("result_index", True, None, "base")))

def traces(chk, R, only=None):
    """every operation that opens, uses or closes a channel, from every small table"""
    M = chk.M; big = chk.tier != "quick"
    allm = (CLOSED, CONNECTING, CONNECTED)
    def go(H, fn, args, slot=None, deleted=False, st=None):
        s0 = st or H.st.fork(); ri = {"rmc_conn_connect_tcp_by_address": 4, "rmc_conn_process_accept": 2}.get(fn)
        for s, x in ends(chk, R, fn, chk.run(H.ip, fn, args, s0.fork())):
            t = Trace(H, fn, s0, s, x, slot, deleted); t.args = args; t.args_out = None if ri is None else args[ri].e
            yield t
    def sub_ops(modes, pad=0):
        for i, m in enumerate(modes):
            H = Host(chk, "sub", modes, pad=pad, pend=[j == i for j in range(len(modes))])
            yield from go(H, "rmc_sub_close_connection", [V(64, H.ctx), VC(16, H.ix(i))], slot=i)
            for p in (False, True) if m == CONNECTED else (False,):
                for cb in ((True,) if pad else (True, False)):
                    H = Host(chk, "sub", modes, pad=pad, pend=[p if j == i else j % 2 for j in range(len(modes))], cbs=cb, opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [0, 12, 32, 71, 11])))
                    yield from go(H, "rmc_sub_write", [V(64, H.ctx), VC(16, H.ix(i)), op_res()], slot=i)
                    yield from go(H, "rmc_sub_read", [V(64, H.ctx), VC(16, H.ix(i)), op_res()], slot=i)
                    pay = V(64, cell("message")); ln = V(16, S(new_sym("len", 0, 65535)))
                    yield from go(H, "rmc_sub_write_control_message", [V(64, H.ctx), V(64, H.conn(i)), pay, ln], slot=i)
                    iv = cell("interval", "sub_pid_interval", M.size("sub_pid_interval"))
                    for k in range(0, M.size("sub_pid_interval"), 8): put(H.ip, H.st, iv + k, V(64, S(new_sym("iv%d" % k, 1, 1 << 62))))
                    yield from go(H, "rmc_sub_write_interval_acknowledgement", [V(64, H.ctx), V(64, H.conn(i)), V(64, iv)], slot=i)
                    if cb:
                        a = chk.arg_syms("rmc_sub_write_control_message_by_address", ctx=V(64, H.ctx), payload=pay)[0]; a[-1] = ln
                        yield from go(H, "rmc_sub_write_control_message_by_address", a)
                        a = chk.arg_syms("rmc_sub_write_control_message_by_node_id", ctx=V(64, H.ctx), payload=pay)[0]; a[-1] = ln
                        yield from go(H, "rmc_sub_write_control_message_by_node_id", a)
    def pub_ops(modes, pad=0):
        for i, m in enumerate(modes):
            for p in (False, True) if m == CONNECTED else (False,):
                for cb in ((True,) if pad else (True, False)):
                    H = Host(chk, "pub", modes, pad=pad, pend=[p if j == i else j % 2 for j in range(len(modes))], cbs=cb, held=[frozenset([i])] if m else [], opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [0, 12, 32, 71, 11])))
                    yield from go(H, "rmc_pub_write", [V(64, H.ctx), VC(16, H.ix(i)), op_res()], slot=i)
                    yield from go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, H.ix(i)), op_res()], slot=i)
                    yield from go(H, "rmc_pub_close_connection", [V(64, H.ctx), VC(16, H.ix(i))], slot=i)
                    if m != CONNECTED: continue
                    pk = cell("packet", "pub_packet", M.size("pub_packet"))
                    for f in M.structs["pub_packet"]["members"]:
                        b = 8 * f["size"]
                        put(H.ip, H.st, pk + f["off"], V(b, S(new_sym("pk." + f["name"], 0, 0xFF20 if f["name"] == "payload_len" else (1 << min(b, 62)) - 1)) if f["name"] != "payload" else cell("payload")), f["size"])
                    yield from go(H, "rmc_pub_resend_packet", [V(64, H.ctx), V(64, H.conn(i)), V(64, pk)], slot=i)
    def want(n): return only is None or n in only
    P2 = list(itertools.product((CLOSED, CONNECTED), repeat=2)); S2 = list(itertools.product(allm, repeat=2))
    P3 = list(itertools.product((CLOSED, CONNECTED), repeat=3)); S3 = list(itertools.product(allm, repeat=3))
    for modes in S3 if big else S2:
        for slack in (False, True):
            if slack and (not modes or modes[-1]): continue
            for cb in (True, False):
                H = Host(chk, "sub", modes, cbs=cb, slack=slack)
                args, by = chk.arg_syms("rmc_conn_connect_tcp_by_address", conn_vec=V(64, H.cv)); H.args = args
                yield from go(H, "rmc_conn_connect_tcp_by_address", [V(64, H.cv)] + args[1:4] + [out_index()])
                if not want("close"): continue
                for i in range(len(modes) + 1):
                    if cb or i < 2: yield from go(H, "rmc_conn_close_connection", [V(64, H.cv), VC(16, i)], slot=i)
        yield from sub_ops(modes)
    for modes in P3 if big else P2:
        for slack in (False, True):
            if slack and modes[-1]: continue
            for cb in (True, False):
                H = Host(chk, "pub", modes, cbs=cb, slack=slack)
                lf = H.ip.load(H.st, H.ctx + M.member(PC, "listen_descriptor")[0], 4)
                yield from go(H, "rmc_conn_process_accept", [lf, V(64, H.cv), out_index()])
                yield from go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, LISTEN), op_res()], slot=LISTEN)
        yield from pub_ops(modes)
    # slots far up in a large table: an index does not fit in a byte
    for m in (CONNECTED, CONNECTING): yield from sub_ops((m,), pad=FAR)
    yield from pub_ops((CONNECTED,), pad=FAR)
    # whole contexts
    def long(H):
        """an empty subscriber table is walked over the whole index range"""
        H.ip.maxunroll = 40000; H.ip.budget = 1 << 40; H.ip.maxsteps = 1 << 40; return H
    for role in ("pub", "sub"):
        c = "rmc_%s_" % role
        for cb in (True, False):
            H = Host(chk, role, [CLOSED] * 2, active=False, cbs=cb)
            yield from go(H, c + "activate_context", [V(64, H.ctx)])
            for modes in (P2 if role == "pub" else S2) if not big else (P3 if role == "pub" else S3):
                if role == "sub" and not any(modes): continue
                H = Host(chk, role, modes, cbs=cb)
                yield from go(H, c + "deactivate_context", [V(64, H.ctx)])
                yield from go(H, c + "delete_context", [V(64, H.ctx)], deleted=True)
                if cb and len(set(modes)) > 1: yield from go(H, c + "activate_context", [V(64, H.ctx)])       # although it is active
            if role == "sub" and not cb: continue
            # nothing open; deactivating twice, and activating again
            for act in (True, False):
                H = long(Host(chk, role, [CLOSED] * 2, active=act, cbs=cb))
                yield from go(H, c + "deactivate_context", [V(64, H.ctx)])
                yield from go(H, c + "delete_context", [V(64, H.ctx)], deleted=True)
            H = long(Host(chk, role, [CONNECTED, CLOSED], cbs=cb))
            for t in go(H, c + "deactivate_context", [V(64, H.ctx)]):
                yield from ((Trace(H, c + "deactivate_context", t.s0, q.st, q.x)) for q in go(H, c + "deactivate_context", [V(64, H.ctx)], st=t.st))
                yield from ((Trace(H, c + "activate_context", t.s0, q.st, q.x)) for q in go(H, c + "activate_context", [V(64, H.ctx)], st=t.st))
                yield from ((Trace(H, c + "delete_context", t.s0, q.st, q.x, None, True)) for q in go(H, c + "delete_context", [V(64, H.ctx)], st=t.st))
    # the publisher's multicast channel
    for n in (0, 1, 2):
        for cb in (True, False):
            def host(active=True, **kw):
                H = Host(chk, "pub", [CONNECTED, CLOSED], queued=n, cbs=cb, active=active, **kw); H.ip.callback_hook = None; return H
            H = host(); yield from go(H, "rmc_pub_read", [V(64, H.ctx), VC(16, MCAST), op_res()], slot=MCAST)
            H = host(); yield from go(H, "rmc_pub_write", [V(64, H.ctx), VC(16, MCAST), op_res()], slot=MCAST)
            if n > 1: continue
            for act in (True, False):
                for fn in ("rmc_pub_queue_packet", "rmc_pub_queue_announcement"):
                    if not M.defined(fn): continue
                    H = host(act); yield from go(H, fn, chk.arg_syms(fn, ctx=V(64, H.ctx), payload=V(64, cell("payload")), payload_len=V(16, S(new_sym("len", 0, 65535))))[0])
            H = Host(chk, "pub", [CLOSED] * 2, active=False, cbs=cb, queued=n); yield from go(H, "rmc_pub_activate_context", [V(64, H.ctx)])
            H = host(slack=False); setf(H.ip, H.st, H.ctx, PC, "announce_next_send_ts", VC(64, 1)); yield from go(H, "rmc_pub_timeout_process", [V(64, H.ctx)])

# ------------------------------------------------------------------------------------------------ the ledger
def fdof(t, e, j=0): return t.st.norm(t.H.ip.view(t.st, e.args[j], "s"))
def ledger(chk, R, t, poll=False):
    """follow every descriptor along the path; returns {descriptor: registration} at the end"""
    H = t.H; own = dict(H.own); s = t.st; ip = H.ip; gone = set()
    def bad(e, what, key): chk.fact(R + "." + key, s, False, fn=e.fn, line=e.line, what=what, key=key)
    for e in t.new():
        chk.obls[R + ".event"] = chk.obls.get(R + ".event", 0) + 1; chk.proved += 1
        if e.kind == "sys" and e.name in ("socket", "accept", "accept4"):
            if e.name != "socket":
                fd = fdof(t, e)
                if fd not in own: bad(e, "accept is called on a descriptor that is not open", "use")
            if e.x["ok"]: own[s.norm(ip.view(s, e.ret, "s"))] = None
        elif e.kind == "sys" and e.name == "close":
            fd = fdof(t, e)
            if fd not in own: bad(e, "a descriptor that is not open (any more) is closed", "close")
            else:
                if own[fd] is not None: bad(e, "a descriptor is closed while it is still registered with the poll loop", "close-registered")
                del own[fd]; gone.add(fd)
        elif e.kind == "sys" and e.name in FDSYS:
            fd = fdof(t, e)
            if fd not in own: bad(e, "%s is called on a descriptor that is %s" % (e.name, "already closed" if fd in gone else "not open"), "use")
        elif e.kind == "cb" and e.name in ("poll_add", "poll_modify", "poll_remove"):
            fd = fdof(t, e, 1); ind = s.norm(ip.view(s, e.args[2], "u"))
            chk.fact(R + ".user-data", s, any(s.entails(EQ(e.args[0].e, u)) for u in H.uds), fn=e.fn, line=e.line, what="%s is not given the user data the application set" % e.name, key="poll-user-data")
            if e.name == "poll_add":
                if fd not in own: bad(e, "a descriptor that is not open is registered with the poll loop", "add")
                elif own[fd] is not None: bad(e, "a descriptor is registered with the poll loop twice", "add-twice")
                else: own[fd] = (ind.c if not ind.t else ind, s.norm(ip.view(s, e.args[3], "u")))
            elif fd not in own or own[fd] is None: bad(e, "%s is called for a descriptor that is not registered" % e.name, e.name.replace("poll_", "") + "-unknown")
            elif own[fd][0] != (ind.c if not ind.t else ind): bad(e, "%s does not carry the index the descriptor was registered under" % e.name, e.name.replace("poll_", "") + "-index")
            elif e.name == "poll_remove": own[fd] = None
            elif poll:
                yield (e, fd, own[fd]); own[fd] = (own[fd][0], s.norm(ip.view(s, e.args[4], "u")))
    t.own = own
def drain(g):
    for _ in g: pass

def K01(chk):
    R = "K01"; n = 0; M = chk.M
    chk.need("rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept", "rmc_conn_close_connection", "rmc_conn_complete_connection", "rmc_pub_activate_context", "rmc_sub_activate_context", "rmc_pub_deactivate_context", "rmc_sub_deactivate_context")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2 connection slots, 3 in thorough)", "the kernel hands out descriptors that are not open already; close() releases its descriptor", "the application supplies all poll callbacks or none", ASSUME_RING]
    for t in traces(chk, R):
        n += 1; H = t.H; s = t.st
        drain(ledger(chk, R, t)); own = t.own
        if t.deleted:
            chk.fact(R + ".left", s, not own, fn=t.fn, what="%d descriptors stay open after the context was deleted" % len(own), key="left"); continue
        seen = {}
        for where, fd, ind in [("slot", H.cf(s, i, "descriptor", "s"), i) for i in range(H.n())] + [(f, H.sf(s, f), ind) for f, ind in H.sock]:
            if fd == C(-1): continue
            if fd not in own: chk.fact(R + ".stale", s, False, fn=t.fn, what="a %s keeps a descriptor that is not open" % ("connection" if where == "slot" else "context"), key="stale", deps=[fd]); continue
            chk.fact(R + ".shared", s, fd not in seen, fn=t.fn, what="two channels share a descriptor", key="shared"); seen[fd] = ind
            if H.cbs: chk.fact(R + ".registered", s, own[fd] is not None and own[fd][0] == (H.ix(ind) if where == "slot" else ind), fn=t.fn, what="an open %s is not registered with the poll loop under its index" % ("connection" if where == "slot" else "context socket"), key="registered")
            if where == "slot": chk.ob(R + ".open", s, NE(H.cf(s, ind, "mode"), CLOSED), fn=t.fn, what="a closed connection keeps its descriptor", key="open")
        lost = [fd for fd in own if fd not in seen]
        chk.fact(R + ".lost", s, not lost, fn=t.fn, what="a descriptor is neither closed nor kept", key="lost")
    chk.fact(R + ".present", State(), n > 50, fn="rmc_conn_close_connection", what="no operation on channels could be followed", key="present")

# ------------------------------------------------------------------------------------------------ K02
def table(chk, R, t, closed_ok=True):
    """the table describes its slots"""
    H = t.H; s = t.st; n = H.n()
    states = [(s, [])]
    for i in range(n):
        nx = []
        for q, ms in states:
            for q1, m in evals(q, lambda z: H.cf(z, i, "mode")):
                if not m.t: nx.append((q1, ms + [m.c != 0]))
                else: nx += [(q2, ms + [o]) for q2, o in splits(q1, NE(m, 0))]
        states = nx
    cnt = M_off(H, "active_connection_count"); mx = M_off(H, "max_connection_ind")
    for q, op_ in states:
        for i in range(n):
            d = H.cf(q, i, "descriptor", "s")
            chk.ob(R + ".free", q, NE(d, -1) if op_[i] else EQ(d, -1), fn=t.fn, what="a slot is %s" % ("open without a descriptor" if op_[i] else "closed and cannot be handed out again"), key="free-%d" % op_[i])
            v = H.cf(q, i, "connection_index")
            chk.ob(R + ".index", q, EQ(v, H.ix(i)), fn=t.fn, what="a connection does not carry the index of its slot", key="index")
        chk.ob(R + ".count", q, EQ(cnt(q), sum(op_)), fn=t.fn, what="the active connection count is not the number of open slots", key="count")
        top = max([i for i in range(n) if op_[i]], default=None)
        for q1, m in evals(q, mx):
            if top is None:
                for q2, nil in splits(q1, EQ(m, NIL)):
                    if not nil: chk.ob(R + ".max", q2, LE(m, H.ix(n - 1)), fn=t.fn, what="the highest index in use lies outside the table", key="max-range")
            else: chk.ob(R + ".max", q1, [GE(m, H.ix(top)), LE(m, H.ix(n - 1))], fn=t.fn, what="the highest index in use does not cover every open slot, or lies outside the table", key="max")
    return states
def M_off(H, f):
    off, m = H.M.member(CV, f)
    return lambda st: st.norm(H.ip.view(st, H.ip.load(st, H.cv + off, m["size"], mem=st.mem, peek=True), "u"))

def opened(t):
    """[(state, slot or None)] slots that were closed at the start and are open now"""
    H = t.H; s = t.st
    return [i for i in range(H.n()) if not H.modes[i] and H.cf(s, i, "descriptor", "s") != C(-1)]

def K02(chk):
    R = "K02"; M = chk.M; big = chk.tier != "quick"; n = 0
    chk.need("rmc_conn_find_by_index", "rmc_conn_find_by_address", "rmc_conn_find_by_node_id", "rmc_conn_get_max_index_in_use", "rmc_conn_get_active_connection_count", "rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2-3 connection slots)", "the kernel hands out descriptors that are not open already", ASSUME_RING]
    for t in traces(chk, R):
        if t.deleted: continue
        H = t.H; s = t.st
        table(chk, R, t)
        new = opened(t)
        chk.fact(R + ".one", s, len(new) <= 1, fn=t.fn, what="one call hands out %d slots" % len(new), key="one")
        ent = t.fn in ("rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept")
        if not ent and t.fn not in ("rmc_pub_read",): chk.fact(R + ".grant", s, not new, fn=t.fn, what="a slot is handed out by an operation that opens no connection", key="grant")
        if ent or (t.fn == "rmc_pub_read" and t.slot is None):
            full = all(H.modes)
            for i in range(H.n()):
                if not H.modes[i]: continue
                same = [EQ(H.cf(s, i, f, v), H.cf(t.s0, i, f, v)) for f, v in (("descriptor", "s"), ("mode", "u"), ("remote_address", "u"), ("remote_port", "u"), ("node_id", "u"))]
                chk.ob(R + ".other", s, same, fn=t.fn, what="a slot that is in use is handed out again", key="other")
            rets = evals(s, lambda z: H.ip.view(z, t.x, "s"))
            if full and ent:
                n += 1
                for s1, r in rets: chk.ob(R + ".full", s1, NE(r, 0), fn=t.fn, what="a full table does not refuse a further connection", key="full")
                chk.fact(R + ".full", s, not any(e.kind == "sys" and e.name == "accept" and e.x["ok"] for e in t.new()), fn=t.fn, what="a connection is accepted although the table is full", key="full-accept")
            if ent and new:
                ri = t.args_out
                for s1, r in rets: chk.ob(R + ".granted", s1, EQ(r, 0), fn=t.fn, what="a connection that was set up is reported as failed", key="granted")
                if ri is not None:
                    for s1, set_ in splits(s, NE(ri, 0)):
                        if set_: chk.ob(R + ".result", s1, EQ(H.ip.view(s1, H.ip.load(s1, ri, 2, mem=s1.mem, peek=True), "u"), H.ix(new[0])), fn=t.fn, what="the index handed back is not that of the new connection", key="result")
    # the low slots are taken: the index handed out does not fit in a byte
    for role, fn in (("sub", "rmc_conn_connect_tcp_by_address"), ("pub", "rmc_conn_process_accept")):
        for modes in ((CLOSED, CLOSED), (CONNECTED, CLOSED)):
            H = Host(chk, role, modes, pad=FAR); ip = H.ip; busy(H); want = modes.index(CLOSED)
            args = [V(64, H.cv)] + chk.arg_syms(fn, conn_vec=V(64, H.cv))[0][1:4] + [out_index()] if role == "sub" else [ip.load(H.st, H.ctx + M.member(PC, "listen_descriptor")[0], 4), V(64, H.cv), out_index()]
            for s, x in ends(chk, R, fn, chk.run(ip, fn, args, H.st.fork())):
                for s1, r in evals(s, lambda z: ip.view(z, x, "s")):
                    for s2, z in splits(s1, EQ(r, 0)):
                        if not z: continue
                        if any(e.kind == "sys" and e.name == "connect" and not e.x["ok"] for e in s2.events()) and any(e.kind == "sys" and e.name == "close" for e in s2.events()): continue        # the attempt failed
                        n += 1; ri = args[-1].e
                        chk.ob(R + ".far", s2, [NE(H.cf(s2, want, "descriptor", "s"), -1), EQ(H.cf(s2, want, "connection_index"), H.ix(want)), EQ(M_off(H, "active_connection_count")(s2), FAR + sum(1 for m in modes if m) + 1), EQ(M_off(H, "max_connection_ind")(s2), H.ix(want))], fn=fn, what="with the low slots taken, a connection does not get the next free slot", key="far")
                        for s3, set_ in splits(s2, NE(ri, 0)):
                            if set_: chk.ob(R + ".far", s3, EQ(ip.view(s3, ip.load(s3, ri, 2, mem=s3.mem, peek=True), "u"), H.ix(want)), fn=fn, what="the index handed back is not that of the new connection", key="far-result")
                for i in (0, 1, FAR - 1): chk.ob(R + ".far", s, [EQ(H.cf(s, i - FAR, "descriptor", "s"), BUSY + i), EQ(H.cf(s, i - FAR, "mode"), CONNECTED)], fn=fn, what="a slot that is in use is handed out again", key="far-other")
    # closing the last connection of a large table, the one before it and those in low slots open or closed
    for role in ("sub", "pub"):
        for low in (False, True):
            for modes in ((CONNECTED, CONNECTED), (CLOSED, CONNECTED)):
                if not low and modes == (CLOSED, CONNECTED) and chk.tier == "quick" and role == "pub": continue
                H = Host(chk, role, modes, pad=FAR); ip = H.ip; fn = "rmc_conn_close_connection"
                if low: busy(H)
                a0 = M_off(H, "active_connection_count")(H.st)
                for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, H.cv), VC(16, H.ix(1))], H.st.fork())):
                    for s1, r in evals(s, lambda z: ip.view(z, x, "s")):
                        for s2, z in splits(s1, EQ(r, 0)):
                            if not z: continue
                            n += 1; top = H.ix(0) if modes[0] else H.ix(0) - 1 if low else NIL
                            chk.ob(R + ".far", s2, [EQ(M_off(H, "max_connection_ind")(s2), top), EQ(M_off(H, "active_connection_count")(s2), a0 - 1), EQ(H.cf(s2, 1, "descriptor", "s"), -1)], fn=fn, what="closing a connection far up leaves the highest slot in use wrong", key="far-close")
    # looking connections up
    for modes in itertools.product((CLOSED, CONNECTING, CONNECTED), repeat=3 if big else 2):
        for slack in (False, True):
            if slack and modes[-1]: continue
            H = Host(chk, "sub", modes, slack=slack); ip = H.ip; N = len(modes)
            open_ = [i for i in range(N) if modes[i]]
            def fields(i): return H.cf(H.st, i, "remote_address"), H.cf(H.st, i, "remote_port"), H.cf(H.st, i, "node_id")
            fn = "rmc_conn_find_by_index"; ind = S(new_sym("index", 0, 65535))
            for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, H.cv), V(16, ind)], H.st.fork())):
                cur = [(s, None)]
                for i in range(N): cur = [c for q, j in cur for c in ([(q, j)] if j is not None else [(q2, i if y else None) for q2, y in splits(q, EQ(ind, i))])]
                for q, j in cur:
                    n += 1
                    for q1, v in evals(q, lambda z: z.norm(x.e)): chk.ob(R + ".by-index", q1, EQ(v, H.conn(j) if j is not None and modes[j] else C(0)), fn=fn, what="looking up %s by index %s" % ("an open connection" if j is not None and modes[j] else "a closed or unknown connection", "does not return it" if j is not None and modes[j] else "returns one"), key="by-index-%d" % bool(j is not None and modes[j]))
            for fn, keys in (("rmc_conn_find_by_address", (0, 1)), ("rmc_conn_find_by_node_id", (2,))):
                ks = [S(new_sym("key%d" % k, 0, (1 << (16 if k == 1 else 32)) - 1)) for k in keys]
                a = [V(64, H.cv)] + [V(16 if k == 1 else 32, q) for k, q in zip(keys, ks)]
                for s, x in ends(chk, R, fn, chk.run(ip, fn, a, H.st.fork())):
                    cur = [(s, [])]                  # which open connections match
                    for i in open_:
                        nx = []
                        for q, m in cur:
                            todo = [(q, True)]
                            for k, kv in zip(keys, ks): todo = [(q2, y and yes) for q1, yes in todo for q2, y in (splits(q1, EQ(kv, fields(i)[k])) if yes else [(q1, False)])]
                            nx += [(q1, m + [i] if yes else m) for q1, yes in todo]
                        cur = nx
                    for q, m in cur:
                        n += 1
                        for q1, v in evals(q, lambda z: z.norm(x.e)):
                            if not m: chk.ob(R + ".lookup", q1, EQ(v, 0), fn=fn, what="a lookup finds a connection that is closed or does not match", key="lookup-none")
                            elif len(m) == 1: chk.ob(R + ".lookup", q1, EQ(v, H.conn(m[0])), fn=fn, what="an open connection is not found", key="lookup-one")
                            else: chk.fact(R + ".lookup", q1, any(q1.entails(EQ(v, H.conn(i))) for i in m), fn=fn, what="an open connection is not found", key="lookup-many", deps=[v])
            for fn, f in (("rmc_conn_get_max_index_in_use", "max_connection_ind"), ("rmc_conn_get_active_connection_count", "active_connection_count"), ("rmc_conn_get_vector_size", "size")):
                o = cell("result", None, 2)
                for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, H.cv), V(64, o)], H.st.fork())):
                    chk.ob(R + ".query", s, EQ(ip.view(s, ip.load(s, o, 2, mem=s.mem, peek=True), "u"), M_off(H, f)(H.st)), fn=fn, what="the table's %s is not reported" % f.replace("_", " "), key="query-" + f)
    chk.fact(R + ".present", State(), n > 50, fn="rmc_conn_find_by_index", what="no lookup could be followed", key="present")

# ------------------------------------------------------------------------------------------------ K03
def K03(chk):
    R = "K03"; M = chk.M; n = 0
    chk.need("rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept", "rmc_conn_close_connection", "rmc_conn_complete_connection", "rmc_sub_write", "rmc_sub_read", "rmc_pub_write", "rmc_pub_read")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2-3 connection slots)", ASSUME_RING, "the kernel hands out descriptors that are not open already"]
    for t in traces(chk, R):
        H = t.H; s = t.st; ip = H.ip; new = t.new(); n += 1
        own = dict((fd, reg) for fd, reg in H.own.items())
        slots = {H.cf(H.st, i, "descriptor", "s"): i for i in range(H.n()) if H.modes[i]}
        # traffic only on connected channels
        for e in new:
            if e.kind == "sys" and e.name in ("readv", "writev", "read", "write", "send", "recv"):
                fd = fdof(t, e); i = slots.get(fd)
                if i is None: chk.fact(R + ".traffic", s, False, fn=e.fn, line=e.line, what="control traffic on a descriptor that belongs to no open connection", key="traffic-unknown"); continue
                chk.ob(R + ".traffic", s, EQ(H.cf(s, i, "mode", mem=e.mem), CONNECTED), fn=e.fn, line=e.line, what="control traffic on a connection that is not connected", key="traffic")
            elif e.kind == "cb_alloc" and e.x["ok"]:
                for i in range(H.n()):
                    if s.norm(e.x["cb"]) == s.norm(H.conn(i) + M.member(CN, "write_buf")[0]): chk.ob(R + ".traffic", s, EQ(H.cf(s, i, "mode", mem=e.mem), CONNECTED), fn=e.fn, line=e.line, what="data is queued on a connection that is not connected", key="queued")
            elif e.kind == "opq" and e.name == "rmc_conn_tcp_read":
                for q, v in evals(s, lambda z: ip.view(z, e.args[1], "u")):
                    i = v.c - H.ix(0) if not v.t and H.ix(0) <= v.c < H.ix(H.n()) else None
                    chk.fact(R + ".traffic", q, i is not None and H.cf(q, i, "mode", mem=e.mem) == C(CONNECTED), fn=e.fn, line=e.line, what="input is handled on a connection that is not connected", key="handled")
        if t.deleted: continue
        for i in range(H.n()):
            for q, md in evals(s, lambda z: H.cf(z, i, "mode")):
                was = H.modes[i]; now = md.c if not md.t else None
                if now is None: chk.unsure(R, t.fn, "connection mode", "not a definite mode"); continue
                chk.fact(R + ".mode", q, now in (CLOSED, CONNECTING, CONNECTED), fn=t.fn, what="a connection leaves the documented states", key="mode")
                if now == was: continue
                if was == CLOSED and now == CONNECTING:
                    cn = [e for e in new if e.kind == "sys" and e.name == "connect"]
                    ok = len(cn) == 1 and fdof(t, cn[0]) == H.cf(q, i, "descriptor", "s")
                    chk.fact(R + ".connecting", q, ok, fn=t.fn, what="a connection is connecting without a connection attempt", key="connecting")
                    if ok and not cn[0].x["ok"]: chk.ob(R + ".connecting", q, EQ(cn[0].x["errno"], INPROGRESS), fn=t.fn, what="a connection attempt that failed leaves the slot connecting", key="connecting-failed")
                elif was == CLOSED and now == CONNECTED:
                    ac = [e for e in new if e.kind == "sys" and e.name in ("accept", "accept4") and e.x["ok"]]
                    chk.fact(R + ".accepted", q, len(ac) == 1 and q.norm(ip.view(q, ac[0].ret, "s")) == H.cf(q, i, "descriptor", "s"), fn=t.fn, what="a connection is connected without having been accepted", key="accepted")
                elif was == CONNECTING and now == CONNECTED:
                    fd = H.cf(H.st, i, "descriptor", "s")
                    so = [e for e in new if e.kind == "sys" and e.name == "getsockopt" and fdof(t, e) == fd and e.x["ok"]]
                    chk.fact(R + ".complete", q, bool(so), fn=t.fn, what="a connecting connection becomes connected without the socket having been asked", key="complete-asked")
                    if so: chk.ob(R + ".complete", q, EQ(so[-1].x["value"], 0), fn=t.fn, what="a connection attempt the socket reports as failed becomes connected", key="complete")
                elif now == CLOSED:
                    chk.ob(R + ".closed", q, EQ(H.cf(q, i, "descriptor", "s"), -1), fn=t.fn, what="a closed connection keeps its descriptor", key="closed")
                else: chk.fact(R + ".transition", q, False, fn=t.fn, what="a connection goes from %s to %s" % (("closed", "connecting", "connected")[was], ("closed", "connecting", "connected")[now]), key="transition")
        # an attempt that came to its end
        if t.fn in ("rmc_sub_write",) and H.modes[t.slot] == CONNECTING:
            so = [e for e in new if e.kind == "sys" and e.name == "getsockopt"]
            st_ok = [e for e in new if e.kind == "sys" and e.name == "setsockopt"]
            if so:
                for q, md in evals(s, lambda z: H.cf(z, t.slot, "mode")):
                    if not so[-1].x["ok"]: chk.ob(R + ".failed", q, EQ(md, CLOSED), fn=t.fn, what="a connection whose state cannot be asked for is not closed", key="failed-ask")
                    else:
                        for q1, good in splits(q, EQ(so[-1].x["value"], 0)):
                            bad_opt = any(not e.x["ok"] for e in st_ok)
                            if not good: chk.ob(R + ".failed", q1, EQ(md, CLOSED), fn=t.fn, what="a connection attempt the socket reports as failed does not leave the slot closed", key="failed")
                            elif bad_opt: chk.fact(R + ".failed", q1, md == C(CLOSED) or md == C(CONNECTED), fn=t.fn, what="a connection that cannot be set up stays connecting", key="failed-setup")
                            else: chk.ob(R + ".established", q1, EQ(md, CONNECTED), fn=t.fn, what="a connection attempt that succeeded does not become connected", key="established")
            else: chk.fact(R + ".ask", s, False, fn=t.fn, what="write readiness of a connecting socket does not complete the connection", key="ask")
        if t.fn == "rmc_conn_connect_tcp_by_address":
            cn = [e for e in new if e.kind == "sys" and e.name == "connect"]
            if cn and not cn[-1].x["ok"]:
                for q, y in splits(s, EQ(cn[-1].x["errno"], INPROGRESS)):
                    op_ = opened(Trace(H, t.fn, t.s0, q, t.x))
                    chk.fact(R + ".attempt", q, bool(op_) == y, fn=t.fn, what="a connection attempt %s" % ("that is in progress is given up" if y else "that fails leaves its slot in use"), key="attempt-%d" % y)
            if cn and cn[-1].x["ok"]: chk.fact(R + ".attempt", s, bool(opened(t)), fn=t.fn, what="a connection attempt that succeeded is given up", key="attempt-ok")
        if t.fn == "rmc_conn_close_connection" and t.slot is not None and t.slot < H.n():
            chk.ob(R + ".close", s, EQ(H.cf(s, t.slot, "mode"), CLOSED), fn=t.fn, what="a connection that is closed does not become closed", key="close")
    # the next user of a slot
    for role, first in (("pub", "rmc_conn_close_connection"), ("sub", "rmc_conn_close_connection"), ("sub", "fail")):
        for modes in ([CONNECTED, CLOSED], [CONNECTED, CONNECTED]) if role == "pub" else ([CONNECTED, CONNECTING], [CONNECTING, CONNECTED], [CLOSED, CONNECTED]):
            if (first == "fail") != (CLOSED in modes and role == "sub"): continue
            H = Host(chk, role, modes, pend=[True, True]); ip = H.ip; starts = []
            A = [S(new_sym(k, 0, (1 << b) - 1)) for k, b in (("address", 32), ("port", 16), ("node", 32))]
            if first == "fail":
                for s, x in ends(chk, R, "rmc_conn_connect_tcp_by_address", chk.run(ip, "rmc_conn_connect_tcp_by_address", [V(64, H.cv), V(32, S(new_sym("oa", 0, (1 << 32) - 1))), V(16, S(new_sym("op", 0, 65535))), V(32, S(new_sym("on", 0, (1 << 32) - 1))), V(64, C(0))], H.st.fork())):
                    if H.cf(s, 0, "descriptor", "s") == C(-1): starts.append(s)
            else: starts = [s for s, x in ends(chk, R, first, chk.run(ip, first, [V(64, H.cv), VC(16, 0)], H.st.fork()))]
            for s0 in starts:
                if role == "pub":
                    fn = "rmc_conn_process_accept"; lf = ip.load(s0, H.ctx + M.member(PC, "listen_descriptor")[0], 4)
                    a = [lf, V(64, H.cv), V(64, C(0))]
                else: fn = "rmc_conn_connect_tcp_by_address"; a = [V(64, H.cv), V(32, A[0]), V(16, A[1]), V(32, A[2]), V(64, C(0))]
                for s, x in ends(chk, R, fn, chk.run(ip, fn, a, s0.fork())):
                    used = [i for i in range(2) if H.cf(s, i, "descriptor", "s") != H.cf(s0, i, "descriptor", "s")]
                    for i in used:
                        n += 1
                        for b in ("read_buf", "write_buf"): chk.ob(R + ".fresh", s, EQ(H.use(s, i, b), 0), fn=fn, what="a new connection starts with bytes of the previous user of its slot", key="fresh-" + b)
                        act = H.cf(s, i, "action")
                        if role == "pub": chk.ob(R + ".fresh", s, EQ(H.cf(s, i, "node_id"), 0), fn=fn, what="a new connection starts with the node id of the previous user of its slot", key="fresh-node")
                        else: chk.ob(R + ".fresh", s, [EQ(H.cf(s, i, "remote_address"), A[0]), EQ(H.cf(s, i, "remote_port"), A[1]), EQ(H.cf(s, i, "node_id"), A[2])], fn=fn, what="a new connection does not carry the identity it was opened for", key="fresh-identity")
                        if role == "pub":
                            ad = [EQ(H.cf(s, i, f), H.cf(H.st, i, f)) for f in ("remote_address", "remote_port")]
                            if H.modes[i]: chk.fact(R + ".fresh", s, not s.entails(ad[0]), fn=fn, what="an accepted connection carries the address of the previous user of its slot", key="fresh-address")
    chk.fact(R + ".present", State(), n > 50, fn="rmc_conn_close_connection", what="no operation on channels could be followed", key="present")

# ------------------------------------------------------------------------------------------------ K04
def interest(chk, R, t):
    """every poll update names one channel and its interest; in the end interest matches what waits on each channel; (updates, multicast channels looked at)"""
    M = chk.M; H = t.H; s = t.st; ip = H.ip; n = wait = 0
    if not H.cbs: drain(ledger(Quiet(chk), R, t)); 
    else:
        for e, fd, reg in ledger(Quiet(chk), R, t, poll=True):
            n += 1
            ind = s.norm(ip.view(s, e.args[2], "u")); old = s.norm(ip.view(s, e.args[3], "u")); new = s.norm(ip.view(s, e.args[4], "u"))
            if not isinstance(reg[0], int) or reg[0] >= H.ix(H.n()): continue
            if reg[1] is not None: chk.ob(R + ".previous", s, EQ(old, reg[1]), fn=e.fn, line=e.line, what="a poll update does not name the interest the channel had before", key="previous")
    if t.deleted: return n, wait
    # wrong channel named in an update
    for e in t.new():
        if e.kind == "cb" and e.name == "poll_modify":
            fd = fdof(t, e, 1); ind = s.norm(ip.view(s, e.args[2], "u"))
            ok = False
            for i in range(H.n()):
                d = s.norm(ip.view(s, ip.load(s, H.conn(i) + M.member(CN, "descriptor")[0], 4, mem=e.mem, peek=True), "s"))
                if d == fd and ind == C(H.ix(i)): ok = True
            for f, k in H.sock:
                d = s.norm(ip.view(s, ip.load(s, H.ctx + M.member(H.struct, f)[0], 4, mem=e.mem, peek=True), "s"))
                if d == fd and ind == C(k): ok = True
            chk.fact(R + ".channel", s, ok, fn=e.fn, line=e.line, what="a poll update does not carry the descriptor and index of one channel", key="channel", deps=[fd, ind])
            if ind == C(LISTEN):
                for q, a in evals(s, lambda z: z.norm(ip.view(z, e.args[4], "u"))): chk.fact(R + ".read", q, not a.t and bool(a.c & RD), fn=e.fn, line=e.line, what="read interest of the listening socket is withdrawn", key="read-listen")
    for i in range(H.n()):
        for q, md in evals(s, lambda z: H.cf(z, i, "mode")):
            if md.t or md.c == CLOSED: continue
            act = H.cf(q, i, "action"); fd = H.cf(q, i, "descriptor", "s"); reg = t.own.get(fd)
            u = H.use(q, i)
            if H.cbs:
                if reg is None or reg[1] is None: continue
                for q1, a in evals(q, lambda z: z.norm(reg[1])):
                    if a.t: chk.unsure(R, t.fn, "poll interest", "not a definite interest"); continue
                    if md.c == CONNECTING: chk.fact(R + ".connecting", q1, bool(a.c & WR), fn=t.fn, what="write readiness is not asked for while a connection is being set up", key="connecting"); continue
                    chk.fact(R + ".read", q1, bool(a.c & RD), fn=t.fn, what="read interest of an established channel is withdrawn", key="read")
                    for q2, pend in splits(q1, GE(u, 1)):
                        chk.fact(R + ".write", q2, bool(a.c & WR) == pend, fn=t.fn, what="bytes wait on a channel and write readiness is not asked for" if pend else "write readiness is asked for with nothing to write", key="write-%d" % pend)
                chk.ob(R + ".stored", q, EQ(act, reg[1]), fn=t.fn, what="the interest kept for a channel is not the one the application was asked for", key="stored")
    # the publisher's own channel is writable-polled while packets wait for it
    for f, k in H.sock if H.role == "pub" and H.cbs else []:
        if k != MCAST: continue
        fd = H.sf(s, f); reg = t.own.get(fd)
        if reg is None: continue
        q, bad = H.X.lst(s, "queued")
        if bad or reg[1] is None: continue
        for q1, a in evals(s, lambda z: z.norm(reg[1])):
            if a.t: chk.unsure(R, t.fn, "poll interest", "not a definite interest"); continue
            wait += 1
            chk.fact(R + ".multicast", q1, bool(a.c & WR) == bool(q), fn=t.fn, what="packets wait to be multicast and write readiness is not asked for" if q else "write readiness of the multicast channel is asked for with nothing to send", key="multicast-%d" % bool(q))
    return n, wait
def K04(chk):
    R = "K04"; M = chk.M; n = wait = arm = 0
    chk.need("rmc_pub_write", "rmc_sub_write", "rmc_pub_read", "rmc_sub_read", "rmc_sub_write_control_message", "rmc_sub_write_interval_acknowledgement", "rmc_pub_resend_packet", "rmc_conn_complete_connection")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2-3 connection slots)", ASSUME_RING, "at entry every connected channel has read interest, and write interest exactly while bytes wait on it (which is also shown to hold again at exit)"]
    for t in traces(chk, R):
        H = t.H; s = t.st; ip = H.ip
        a, b = interest(chk, R, t); n += a; wait += b
        if t.deleted: continue
        if H.cbs and t.slot is not None and t.fn in ("rmc_pub_read", "rmc_sub_read", "rmc_pub_write", "rmc_sub_write"):
            fd0 = chan(H, t.s0, t.slot)
            if fd0 is None: continue
            for q, r in evals(s, lambda z: H.ip.view(z, t.x, "s")):
                if r.t or r.c or chan(H, q, t.slot) != fd0 or t.own.get(fd0) is None: continue
                up = [e for e in t.new() if e.kind == "cb" and e.name == "poll_modify" and fdof(t, e, 1) == fd0]
                used = [j for j, e in enumerate(t.new()) if e.kind == "sys" and e.name in FDSYS and fdof(t, e) == fd0]
                if t.slot in (MCAST, LISTEN) and not used: continue
                arm += 1
                chk.fact(R + ".rearm", q, bool(up), fn=t.fn, what="a channel that was %s is not re-armed with the poll loop" % ("read" if t.fn.endswith("read") else "written"), key="rearm-" + ("socket" if t.slot in (MCAST, LISTEN) else "control"))
    n += multicast_input(chk, R)
    chk.fact(R + ".present", State(), n > 50 and wait > 10 and arm > 10, fn="rmc_pub_write", what="no poll update could be followed", key="present")
def chan(H, st, slot):
    for f, k in H.sock:
        if k == slot: return H.sf(st, f)
    i = slot - H.X.pad
    if not 0 <= i < H.n() or H.cf(st, i, "mode") == C(CLOSED): return None
    return H.cf(st, i, "descriptor", "s")
def multicast_input(chk, R):
    """the subscriber's multicast channel stays readable-polled"""
    D = Dgram(chk); n = 0; fn = "rmc_sub_read"; has = val(D.ip, State(), D.ctx, SC, "conn_vec.poll_modify").e
    for k, s, x in D.outs:
        if k != "ret": continue
        ev = s.events(); rc = [j for j, e in enumerate(ev) if e.kind == "sys" and e.name == "recvfrom"]
        if not rc: continue
        pm = [e for e in ev if e.kind == "cb" and e.name == "poll_modify"]
        for s1, h in splits(s, NE(has, 0)):
            if not h: continue
            n += 1
            good = [e for e in ev[rc[-1]:] if e in pm and s1.entails(EQ(D.ip.view(s1, e.args[1], "s"), D.fd)) and s1.entails(EQ(D.ip.view(s1, e.args[2], "u"), MCAST))]
            for e in pm:
                ok = s1.entails(EQ(D.ip.view(s1, e.args[2], "u"), MCAST)) and s1.entails(EQ(D.ip.view(s1, e.args[1], "s"), D.fd))
                chk.fact(R + ".channel", s1, ok, fn=e.fn, line=e.line, what="a poll update does not carry the descriptor and index of one channel", key="channel-multicast")
                chk.ob(R + ".previous", s1, EQ(D.ip.view(s1, e.args[3], "u"), RD), fn=e.fn, line=e.line, what="a poll update does not name the interest the channel had before", key="previous-multicast")
                for s2, a in evals(s1, lambda z: D.ip.view(z, e.args[4], "u")): chk.fact(R + ".read", s2, not a.t and bool(a.c & RD), fn=e.fn, line=e.line, what="read interest of the multicast channel is withdrawn", key="read-multicast")
            for s2, r in evals(s1, lambda z: D.ip.view(z, x, "s")):
                if r.t or r.c: continue
                chk.fact(R + ".rearm", s2, bool(good), fn=fn, what="a channel that was read is not re-armed with the poll loop", key="rearm-multicast")
    return n
class Quiet:
    """the ledger's own verdicts belong to K01"""
    def __init__(s, chk): s.obls = {}; s.proved = 0
    def fact(s, *a, **k): return True
    def ob(s, *a, **k): return True

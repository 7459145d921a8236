"""A01, A03, A04: argument checks, initialisation and configuration, shutdown."""
from rules.conns import *
from rules.times import quiet
from rules.subio import released
from rules.pubq import given_back
import re

EINVAL = 22
def public(chk):
    """the calls reliable_multicast.h declares, in order"""
    import ir
    t = open(os.path.join(ir.REPO, "reliable_multicast.h")).read() if os.path.exists(os.path.join(ir.REPO, "reliable_multicast.h")) else ""
    t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
    out = [n for n in dict.fromkeys(re.findall(r"\bextern\s+[^;(]*?\b(\w+)\s*\(", t)) if n in chk.M.funcs and chk.M.defined(n)]
    if len(out) < 40: raise ir_error("only %d public calls could be read from reliable_multicast.h" % len(out))
    return out
import os
# answers of calls that only ask for something; everything else reports a status
NEUTRAL = re.compile(r"^rmc_(?:pub|sub)_(?!write).*_?(node_id|user_data|length|count|packet_payload|packet_payload_len|get_next_dispatch_ready)$")
EITHER = ("rmc_pub_traffic_suspended",)
SETTER = re.compile(r"_set_")
# arguments besides the context without which a call cannot do anything
MANDATORY = {("rmc_pub_init_context", 0), ("rmc_pub_init_context", 2), ("rmc_sub_init_context", 0), ("rmc_sub_init_context", 2),
             ("rmc_pub_timeout_get_next", 1), ("rmc_sub_timeout_get_next", 1), ("rmc_pub_queue_packet", 1),
             ("rmc_sub_write_control_message_by_node_id", 2), ("rmc_sub_write_control_message_by_address", 3),
             ("rmc_sub_packet_dispatched", 1), ("rmc_sub_packet_dispatched_keep_payload", 1), ("rmc_sub_packet_payload", 0), ("rmc_sub_packet_payload_len", 0)}

def watch(ip, objs, hits):
    """collect accesses that may leave one of the objects [(base, size, name)]"""
    inner = ip.chk_addr
    base = {}
    for b, n, nm in objs:
        k = keybase(b.t); base[k] = (n, nm)
    def f(st, e):
        e = inner(st, e)
        b = keybase(e.t) if e.t else None
        if b in base:
            n, nm = base[b]; d = st.norm(e) - S(b)
            if not (st.entails(GE(d, 0)) and st.entails(LE(d, n - 1))): hits.append((st.fork(), d, n, nm, st.fn, st.line))
        return e
    ip.chk_addr = f
    return lambda: setattr(ip, "chk_addr", inner)

def rejected(chk, R, H, fn, outs, st0, kind, what, key, allow=()):
    """every path ends on an assertion, or with an error (or a neutral value) and without any effect"""
    ip = H.ip; n = 0
    for k, s, x in outs:
        if k == "abort": n += 1; chk.obls[R + ".stops"] = chk.obls.get(R + ".stops", 0) + 1; chk.proved += 1; continue
        if k == "fault": chk.fact(R + ".access", s, False, fn=fn, what="%s is accessed: %s (%s)" % (what, x, fn), key=key); n += 1; continue
        if k != "ret": continue
        n += 1
        for e in s.events()[len(st0.events()):]:
            if e.kind == "maybe_null": chk.fact(R + ".access", s, False, fn=e.fn, line=e.line, what="%s is accessed" % what, key=key)
        quiet(chk, R, s, fn, list(allow), ip, st0)
        al = [e for e in s.events()[len(st0.events()):] if e.kind == "alloc"]
        chk.fact(R + ".alloc", s, not al, fn=fn, what="a rejected call to %s leaves memory allocated" % fn, key=key + "-alloc")
        if kind == "any" or x is None: continue
        for q, v in evals(s, lambda z: ip.view(z, x, "s")):
            if kind == "error": chk.ob(R + ".rejected", q, NE(v, 0), fn=fn, what="%s reports success although %s" % (fn, what), key=key + "-status")
            else: chk.ob(R + ".neutral", q, EQ(v, 0), fn=fn, what="%s answers something although %s" % (fn, what), key=key + "-neutral")
    return n

def A01(chk):
    R = "A01"; M = chk.M; total = 0
    chk.need("rmc_pub_queue_packet", "rmc_sub_read", "rmc_pub_close_connection", "rmc_sub_close_connection", "rmc_conn_close_connection")
    chk.assume += [ASSUME_CB, "calls are those declared in reliable_multicast.h; reporting code may be left out (op_res), and the interface addresses have defaults"]
    for fn in public(chk):
        F = M.funcs[fn]; role = "sub" if "_sub_" in fn else "pub"
        for i, a in enumerate(F.args):
            k, sn = F.argtype(i)
            if a["ty"] != "p" or k != "ptr": continue
            is_ctx = sn in (PC, SC); must = is_ctx or (fn, i) in MANDATORY
            for ind in (0, MCAST, LISTEN) if not must and fn.endswith(("_read", "_write")) else (None,):
                if ind == LISTEN and fn != "rmc_pub_read": continue
                H = Host(chk, role, [CONNECTED, CLOSED], opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [0, 32, 71])) if ind is not None else None)
                if ind == MCAST and role == "sub": H.ip.maxunroll = 2         # two datagrams
                over = {b["name"]: "nonnull" for b in F.args if b["ty"] == "p"}
                for j, b in enumerate(F.args):
                    kk, ss = F.argtype(j)
                    if kk == "ptr" and ss == H.struct: over[b["name"]] = V(64, H.ctx)
                    if kk == "union": over[b["name"]] = V(64, S(new_sym("user_data", 0, 1 << 62)))
                    if ind is not None and b["ty"] == "i16": over[b["name"]] = VC(16, ind)
                over[a["name"]] = V(64, C(0))
                args, by = chk.arg_syms(fn, **over); st0 = H.st.fork()
                if fn.endswith("init_context") and not must: continue       # defaults: A03
                outs = chk.run(H.ip, fn, args, st0.fork()); total += 1
                what = "the %s is missing" % ("context" if is_ctx else "argument '%s'" % a["name"])
                if must: rejected(chk, R + ".missing", H, fn, outs, st0, "any" if fn in EITHER else "neutral" if NEUTRAL.search(fn) and not SETTER.search(fn) else "error", what, "missing-%d" % i)
                else:
                    for kk, s, x in outs:
                        if kk == "fault": chk.fact(R + ".optional", s, False, fn=fn, what="%s is accessed: %s (%s)" % (what, x, fn), key="optional-%d" % i)
                        elif kk == "ret":
                            chk.obls[R + ".optional"] = chk.obls.get(R + ".optional", 0) + 1; chk.proved += 1
                            for e in evs(s, "maybe_null"): 
                                if a["name"] in str(e.name): chk.fact(R + ".optional", s, False, fn=e.fn, line=e.line, what=what, key="optional-%d" % i)
    # a result nobody asked for is not in the way of the others
    # indices that do not name an open connection
    allm = (CLOSED, CONNECTING, CONNECTED)
    for role in ("pub", "sub"):
        for modes in itertools.product((CLOSED, CONNECTED) if role == "pub" else allm, repeat=2 if chk.tier == "quick" else 3):
            for slack in (False, True):
                if slack and modes[-1]: continue
                for suf in ("read", "write", "close_connection") + (("packet_received",) if role == "sub" else ()):
                    fn = "rmc_%s_%s" % (role, suf)
                    H = Host(chk, role, modes, slack=slack, opaque=dict(rmc_conn_tcp_read=tcp_read_model(M, [0, 32, 71]))); ip = H.ip
                    ind = S(new_sym("index", 0, 65535)); st = H.st.fork()
                    for i, m in enumerate(modes):
                        if m or suf == "packet_received": st.assume(NE(ind, i))
                    if suf == "read": st.assume(NE(ind, MCAST)); st.assume(NE(ind, LISTEN))
                    if suf == "write" and role == "pub": st.assume(NE(ind, MCAST))
                    X = H.X; N = len(modes); hits = []
                    objs = [(X.conns, N * M.size(CN), "connection")] + ([(X.subs, N * M.size("pub_subscriber"), "subscriber")] if role == "pub" else [(X.pubs, N * M.size("sub_publisher"), "publisher")])
                    over = dict(ctx=V(64, H.ctx)); F = M.funcs[fn]
                    for j, b in enumerate(F.args):
                        kk, ss = F.argtype(j)
                        if kk == "ptr" and ss == H.struct: over[b["name"]] = V(64, H.ctx)
                        elif j == 1: over[b["name"]] = V(16, ind)
                        elif kk == "union": over[b["name"]] = V(64, S(new_sym("user_data", 0, 1 << 62)))
                    args, by = chk.arg_syms(fn, **over); st0 = st.fork()
                    if suf in ("read", "write"): args[2] = op_res()
                    undo = watch(ip, objs, hits)
                    outs = chk.run(ip, fn, args, st.fork()); undo(); total += 1
                    rejected(chk, R + ".index", H, fn, outs, st0, "error", "the connection index does not name an open connection", "index", allow=[(args[2].e, 1)] if suf in ("read", "write") else ())
                    for s, d, n, nm, f, line in hits:
                        chk.ob(R + ".inside", s, [GE(d, 0), LE(d, n - 1)], fn=f, line=line, what="%s reaches beyond the %s table with an index that does not name a connection" % (fn, nm), key="inside-" + nm)
            # the table's own calls
            for fn in ("rmc_conn_close_connection", "rmc_conn_find_by_index"):
                for slack in (False, True):
                    if slack and modes[-1]: continue
                    H = Host(chk, role, modes, slack=slack); ip = H.ip; ind = S(new_sym("index", 0, 65535)); st = H.st.fork(); hits = []
                    for i, m in enumerate(modes):
                        if m: st.assume(NE(ind, i))
                    st0 = st.fork(); undo = watch(ip, [(H.X.conns, len(modes) * M.size(CN), "connection")], hits)
                    outs = chk.run(ip, fn, [V(64, H.cv), V(16, ind)], st.fork()); undo(); total += 1
                    rejected(chk, R + ".index", H, fn, outs, st0, "error" if "close" in fn else "neutral", "the connection index does not name an open connection", "index")
                    for s, d, n, nm, f, line in hits:
                        chk.ob(R + ".inside", s, [GE(d, 0), LE(d, n - 1)], fn=f, line=line, what="%s reaches beyond the %s table with an index that does not name a connection" % (fn, nm), key="inside-" + nm)
    chk.fact(R + ".present", State(), total > 60, fn="rmc_pub_queue_packet", what="no public call could be followed", key="present")

# ------------------------------------------------------------------------------------------------ A03
from rules.order import inits, INIT
def leaves(M, struct, base=0, pre=""):
    """(path, offset, size, kind) of every member that carries a value"""
    for m in M.structs[struct]["members"]:
        if m["kind"] == "struct" and m.get("sname") in M.structs: yield from leaves(M, m["sname"], base + m["off"], pre + m["name"] + ".")
        elif m["kind"] == "array": continue
        elif struct.startswith("_") and struct.endswith("_list") and m["name"] in ("alloc_list", "free_list"): continue     # no code uses them
        elif struct == "circ_buf": continue                                                                                  # the ring's own state, see the events
        else: yield pre + m["name"], base + m["off"], m["size"], m["kind"]
def plain(ip, s, a, size, view="u"):
    v = ip.load(s, a, size, mem=s.mem, peek=True); e = s.norm(v.e)
    return e if uninit(s, e) else s.norm(ip.view(s, v, view))
def uninit(s, v): return any("uninit" in (SYMS[y].taint or "") for y in v.syms())
RESEND, ACKT = 100000, 50000

def A03(chk):
    R = "A03"; M = chk.M; n = 0; big = chk.tier != "quick"
    chk.need("rmc_pub_init_context", "rmc_sub_init_context", "rmc_conn_init_connection_vector", "rmc_pub_set_user_data", "rmc_sub_set_user_data", "rmc_pub_throttling")
    chk.assume += [ASSUME_CB, ASSUME_RING, "connection tables of 0 to %d slots (every slot is treated the same)" % (3 if big else 2), "malloc succeeds (the library stops the process otherwise)",
                   "the subscriber records of a publisher get their value when a subscriber is accepted (P08)"]
    for role in ("pub", "sub"):
        I = INIT[role]; fn = "rmc_%s_init_context" % role; struct = I["struct"]; cases = 0
        texts = list(I["text"])
        for size in range(0, 4 if big else 3):
            for omit, zero in [((), ()), (tuple(texts[1:]), ()), (tuple(texts[1:2]), ("node_id",)), (tuple(texts[2:3]), ("payload_free", "payload_alloc")), ((), ("poll_add", "poll_modify", "poll_remove"))] if size == 2 else [((), ())]:
                for s, t, _ in inits(chk, R, role, size=size, omit=omit, zero=zero):
                    n += 1; cases += 1; ip = t["ip"]; c = t["ctx"]; A = t["args"]; line = None
                    if not c.t: chk.fact(R + ".result", s, False, fn=fn, what="initialisation succeeds without handing back a context", key="result"); continue
                    for path, off, sz, kind in leaves(M, struct):
                        v = plain(ip, s, c + off, sz, "s" if kind == "s" else "u")
                        chk.obls[R + ".defined"] = chk.obls.get(R + ".defined", 0) + 1
                        if uninit(s, v): definite(chk, R + ".defined", s, fn, "%s has no value after initialisation" % path, "defined-" + path)
                        else: chk.proved += 1
                    def want(path, e, view="u", what=None):
                        off, m = M.member(struct, path)
                        v = plain(ip, s, c + off, m["size"], view)
                        if uninit(s, v): return
                        for q, (a, b) in evals(s, lambda z: (z.norm(v), z.norm(e) if isinstance(e, Lin) else C(e))):
                            chk.ob(R + ".value", q, EQ(a, b), fn=fn, what="%s does not start as %s" % (path, what or "the documented default"), key="value-" + path)
                    arg = "what the caller gave"
                    want("user_data", A["user_data"].e, what=arg); want("conn_vec.user_data", A["user_data"].e, what=arg)
                    for f in ("poll_add", "poll_modify", "poll_remove"): want("conn_vec." + f, A[f].e, what=arg)
                    want("payload_free", A["payload_free"].e, what=arg)
                    if role == "sub": want("payload_alloc", A["payload_alloc"].e, what=arg)
                    want("mcast_port", ip.view(s, A["multicast_port"], "s"), "s", what=arg)
                    if "node_id" not in zero: want("node_id", ip.view(s, A["node_id"], "u"), what=arg)
                    if role == "pub": want("control_listen_port", ip.view(s, A["control_listen_port"], "s"), "s", what=arg)
                    for f in dict(pub=("mcast_send_descriptor", "listen_descriptor"), sub=("mcast_recv_descriptor",))[role]: want(f, -1, "s", "not open")
                    for f in dict(pub=("announce_cb", "subscriber_connect_cb", "subscriber_disconnect_cb", "subscriber_control_message_cb"), sub=("announce_cb", "subscription_complete_cb", "packet_ready_cb"))[role]: want(f, 0, what="not set")
                    if role == "pub":
                        want("resend_timeout", RESEND)
                        for f in ("announce_send_interval", "announce_next_send_ts", "traffic_suspend_threshold", "traffic_resume_threshold", "traffic_suspended"): want(f, 0)
                        want("pub_ctx.next_pid", 1)
                    else: want("ack_timeout", ACKT)
                    want("conn_vec.size", size, what="the number of peers asked for"); want("conn_vec.active_connection_count", 0); want("conn_vec.max_connection_ind", NIL, what="an empty table")
                    # addresses: from the text given, 0.0.0.0 without one
                    for nm, f in I["text"].items():
                        a = t["aton"].get(nm); off, m = M.member(struct, f); v = plain(ip, s, c + off, 4)
                        if uninit(s, v): continue
                        if nm not in omit:
                            src = [y for y in v.syms()] ; chk.fact(R + ".address", s, a is not None or bool(src), fn=fn, what="%s does not come from the address given" % f, key="address-" + f)
                        else: chk.fact(R + ".address", s, default_address(M, s, t, v), fn=fn, what="%s is not 0.0.0.0 when no address is given" % f, key="address-default-" + f)
                    # lists and tables
                    for path, pre in dict(pub=(("pub_ctx.subscribers", "pub_sub_list"), ("pub_ctx.queued", "pub_packet_list"), ("pub_ctx.inflight", "pub_packet_list")), sub=(("dispatch_ready", "sub_packet_list"), ("pub_ack_list", "rmc_index_list")))[role]:
                        ns, bad = rdlist(chk, ip, s, c + M.member(struct, path)[0], pre)
                        chk.fact(R + ".empty", s, not ns and not bad, fn=fn, what="%s does not start as an empty list" % path, key="empty-" + path)
                    tab = s.norm(ip.load(s, c + M.member(struct, "conn_vec.connections")[0], 8, mem=s.mem, peek=True, hint="p").e)
                    al = {s.norm(S(e.x)): e for e in t["ev"] if e.kind == "alloc"}
                    if tab in al: chk.ob(R + ".room", s, GE(SYMS[keybase(tab.t)].field, size * M.size(CN)), fn=fn, what="the connection table is too small for the peers asked for", key="room")
                    elif not (size == 0 and not tab.t): chk.fact(R + ".room", s, False, fn=fn, what="the connection table is not allocated", key="room-none")
                    for i in range(size):
                        b = tab + i * M.size(CN)
                        for f, v, view in (("descriptor", -1, "s"), ("mode", CLOSED, "u"), ("connection_index", i, "u"), ("action", 0, "u")):
                            off, m = M.member(CN, f); x = plain(ip, s, b + off, m["size"], view)
                            if uninit(s, x): definite(chk, R + ".slot", s, fn, "the %s of a connection slot has no value after initialisation" % f, "slot-" + f)
                            else: chk.ob(R + ".slot", s, EQ(x, v), fn=fn, what="a connection slot does not start closed (%s)" % f, key="slot-" + f)
                        for path, off, sz, kind in leaves(M, CN):
                            if uninit(s, plain(ip, s, b + off, sz)): definite(chk, R + ".slot", s, fn, "the %s of a connection slot has no value after initialisation" % path, "slot-" + path)
                        for f in ("read_buf", "write_buf"):
                            rb = b + M.member(CN, f)[0]
                            ini = [e for e in t["ev"] if e.kind == "cb_init" and s.norm(e.args[0].e) == s.norm(rb)]
                            chk.fact(R + ".buffer", s, len(ini) >= 1, fn=fn, what="the %s of a connection slot is not set up" % f, key="buffer-" + f)
                            if ini:
                                o, m = M.member(CN, f + "_data")
                                chk.ob(R + ".buffer", s, [EQ(ini[-1].args[1].e, b + o), EQ(ip.view(s, ini[-1].args[2], "u"), m["size"])], fn=fn, what="the %s of a connection slot does not use its own storage" % f, key="storage-" + f)
                                chk.ob(R + ".buffer", s, EQ(models.cb_get(ip, s, rb)[0], 0), fn=fn, what="the %s of a connection slot does not start empty" % f, key="bytes-" + f)
                    if role == "sub":
                        pt = s.norm(ip.load(s, c + M.member(struct, "publishers")[0], 8, mem=s.mem, peek=True, hint="p").e)
                        if pt in al: chk.ob(R + ".room", s, GE(SYMS[keybase(pt.t)].field, size * M.size("sub_publisher")), fn=fn, what="the publisher table is too small for the peers asked for", key="room-pub")
                        for i in range(size):
                            p = pt + i * M.size("sub_publisher")
                            for f, pre in (("received_pid", "sub_packet_list"), ("received_interval", "sub_pid_interval_list")):
                                ns, bad = rdlist(chk, ip, s, p + M.member("sub_publisher", f)[0], pre)
                                chk.fact(R + ".publisher", s, not ns and not bad, fn=fn, what="a publisher's %s does not start as an empty list" % f, key="publisher-" + f)
                            for f in ("max_pid_ready", "max_pid_received"):
                                off, m = M.member("sub_publisher", f); x = plain(ip, s, p + off, m["size"])
                                if uninit(s, x): definite(chk, R + ".publisher", s, fn, "a publisher's %s has no value after initialisation" % f, "publisher-" + f)
                                else: chk.ob(R + ".publisher", s, EQ(x, 0), fn=fn, what="a publisher's %s does not start at nothing received" % f, key="publisher-" + f)
                    else:
                        pt = s.norm(ip.load(s, c + M.member(struct, "subscribers")[0], 8, mem=s.mem, peek=True, hint="p").e)
                        if pt in al: chk.ob(R + ".room", s, GE(SYMS[keybase(pt.t)].field, size * M.size("pub_subscriber")), fn=fn, what="the subscriber table is too small for the peers asked for", key="room-sub")
                        else: chk.fact(R + ".room", s, size == 0, fn=fn, what="the subscriber table is not allocated", key="room-sub-none")
                    # nothing but what the context holds stays allocated
                    held = {c, tab, pt}
                    for a, e in al.items():
                        if s.norm(a) in held: continue
                        chk.fact(R + ".leak", s, any(f.kind == "free" and s.entails(EQ(f.args[0].e, a)) for f in t["ev"]), fn=e.fn, line=e.line, what="memory allocated during initialisation is not reachable from the context", key="leak")
                    for f in t["ev"]:
                        if f.kind == "free": chk.fact(R + ".leak", s, not any(s.entails(EQ(f.args[0].e, h)) for h in held if h.t), fn=f.fn, line=f.line, what="memory the context uses is released during initialisation", key="freed")
                        if f.kind == "sys" and f.name not in ("inet_aton", "clock_gettime") or f.kind == "cb": chk.fact(R + ".pure", s, False, fn=f.fn, line=f.line, what="initialisation calls %s" % f.name, key="pure")
        # failing
        for s, t, _ in inits(chk, R, role, failing=True):
            n += 1
            bad = [e for e in t["ev"] if e.kind == "sys" and e.name == "inet_aton" and not e.x["ok"]]
            chk.fact(R + ".fails", s, bool(bad), fn=fn, what="initialisation fails although every address is valid", key="fails")
            for e in t["ev"]:
                if e.kind != "alloc": continue
                k = len([f for f in t["ev"] if f.kind == "free" and s.entails(EQ(f.args[0].e, S(e.x)))])
                chk.fact(R + ".failed", s, k == 1, fn=e.fn, line=e.line, what="memory allocated by an initialisation that fails is released %d times" % k, key="failed")
            r = s.norm(t["ip"].load(s, t["args"]["context_res"].e, 8, mem=s.mem, peek=True, hint="p").e)
            chk.fact(R + ".failed", s, not any(e.kind == "alloc" and r == s.norm(S(e.x)) for e in t["ev"]), fn=fn, what="an initialisation that fails hands back a context that was released", key="failed-result")
        for s, t, _ in inits(chk, R, role):
            chk.fact(R + ".valid", s, all(e.x["ok"] for e in t["ev"] if e.kind == "sys" and e.name == "inet_aton"), fn=fn, what="initialisation succeeds although an address cannot be converted", key="valid")
        chk.fact(R + ".present", State(), cases > 3, fn=fn, what="no initialisation could be followed", key="present")
    # ---- configuration
    SET = {"rmc_pub_set_announce_callback": (("announce_cb", 1),), "rmc_pub_set_subscriber_connect_callback": (("subscriber_connect_cb", 1),), "rmc_pub_set_subscriber_disconnect_callback": (("subscriber_disconnect_cb", 1),),
           "rmc_pub_set_control_message_callback": (("subscriber_control_message_cb", 1),), "rmc_pub_set_user_data": (("user_data", 1),), "rmc_pub_throttling": (("traffic_suspend_threshold", 1), ("traffic_resume_threshold", 2)),
           "rmc_pub_set_announce_interval": (("announce_send_interval", 1),), "rmc_pub_set_multicast_ttl": (),
           "rmc_sub_set_announce_callback": (("announce_cb", 1),), "rmc_sub_set_subscription_complete_callback": (("subscription_complete_cb", 1),), "rmc_sub_set_packet_ready_callback": (("packet_ready_cb", 1),), "rmc_sub_set_user_data": (("user_data", 1),)}
    ALSO = {"rmc_pub_set_announce_interval": ("announce_next_send_ts",)}
    for fn, sets in SET.items():
        if not M.defined(fn): chk.unsure(R + ".set", fn, "a configuration call", "it is not defined"); continue
        role = "pub" if "_pub_" in fn else "sub"; F = M.funcs[fn]
        for active in (True, False):
            H = Host(chk, role, [CONNECTED, CLOSED], active=active); ip = H.ip; st0 = H.st.fork(); ok_seen = 0
            over = {b["name"]: V(64, S(new_sym("arg_" + b["name"], 0, (1 << 47) if F.argtype(j)[0] != "union" else 1 << 62))) for j, b in enumerate(F.args) if b["ty"] == "p" or F.argtype(j)[0] == "union"}
            for j, b in enumerate(F.args):
                if F.argtype(j)[1] == H.struct and F.argtype(j)[0] == "ptr": over[b["name"]] = V(64, H.ctx)
            args, by = chk.arg_syms(fn, **over)
            for s, x in ends(chk, R, fn, chk.run(ip, fn, args, st0.fork())):
                allow = []
                for f in [f for f, _ in sets] + list(ALSO.get(fn, ())):
                    off, m = M.member(H.struct, f); allow.append((H.ctx + off, m["size"]))
                for q, r in evals(s, lambda z: ip.view(z, x, "s")):
                    for q1, ok in splits(q, EQ(r, 0)):
                        n += 1
                        ev = q1.events()[len(st0.events()):]
                        if fn == "rmc_pub_set_multicast_ttl":
                            so = [e for e in ev if e.kind == "sys"]; hops = ip.view(q1, args[1], "s"); fd = H.sf(H.st, "mcast_send_descriptor")
                            for e in so:
                                good = e.name == "setsockopt" and q1.norm(ip.view(q1, e.args[1], "s")) == C(0) and q1.norm(ip.view(q1, e.args[2], "s")) == C(33)
                                chk.fact(R + ".ttl", q1, good, fn=e.fn, line=e.line, what="setting the multicast hop limit does something else to the socket", key="ttl")
                                if good: chk.ob(R + ".ttl", q1, [EQ(ip.view(q1, e.args[0], "s"), fd), EQ(q1.norm(ip.view(q1, ip.load(q1, e.args[3].e, 4, mem=e.mem, peek=True), "s")), hops)], fn=e.fn, line=e.line, what="the multicast hop limit set is not the one asked for", key="ttl-value")
                            if ok: chk.fact(R + ".ttl", q1, bool(so) and all(e.x["ok"] for e in so), fn=fn, what="setting the multicast hop limit reports success without having set it", key="ttl-done"); ok_seen += 1
                            elif active: chk.fact(R + ".ttl", q1, any(not e.x["ok"] for e in so), fn=fn, what="a valid hop limit is refused", key="ttl-refused")
                            quietly(chk, R + ".set", q1, fn, [], ip, st0, ("setsockopt",)); continue
                        if ok:
                            ok_seen += 1
                            quiet(chk, R + ".set", q1, fn, allow, ip, st0)
                            for f, j in sets:
                                off, m = M.member(H.struct, f)
                                for q2, (a, b) in evals(q1, lambda z: (plain(ip, z, H.ctx + off, m["size"]), z.norm(ip.view(z, args[j], "u")))):
                                    chk.ob(R + ".set", q2, EQ(a, b), fn=fn, what="%s does not leave %s as asked for" % (fn, f), key="set-" + f)
                        else:
                            quiet(chk, R + ".refused", q1, fn, [], ip, st0)
                            if fn == "rmc_pub_throttling": chk.ob(R + ".refused", q1, LT(ip.view(q1, args[1], "u"), ip.view(q1, args[2], "u")), fn=fn, what="valid thresholds are refused", key="refused")
                            else: chk.fact(R + ".refused", q1, False, fn=fn, what="%s refuses a valid context" % fn, key="refused")
            if active: chk.fact(R + ".set", State(), ok_seen > 0, fn=fn, what="%s never succeeds" % fn, key="set-never")
    # ---- queries
    def descriptors(H, s): return sum(1 for f, _ in H.sock if H.active)
    GET = {"rmc_pub_user_data": lambda H, s: vale(H.ip, s, H.ctx, PC, "user_data"), "rmc_sub_user_data": lambda H, s: vale(H.ip, s, H.ctx, SC, "user_data"),
           "rmc_pub_node_id": lambda H, s: vale(H.ip, s, H.ctx, PC, "node_id"), "rmc_sub_node_id": lambda H, s: vale(H.ip, s, H.ctx, SC, "node_id"),
           "rmc_pub_get_max_subscriber_count": lambda H, s: C(H.n()), "rmc_sub_get_max_publisher_count": lambda H, s: C(H.n()),
           "rmc_pub_get_subscriber_count": lambda H, s: C(sum(1 for m in H.modes if m)), "rmc_sub_get_publisher_count": lambda H, s: C(sum(1 for m in H.modes if m)),
           "rmc_pub_get_socket_count": lambda H, s: C(sum(1 for m in H.modes if m) + descriptors(H, s)), "rmc_sub_get_socket_count": lambda H, s: C(sum(1 for m in H.modes if m) + descriptors(H, s)),
           "rmc_pub_traffic_suspended": lambda H, s: vale(H.ip, s, H.ctx, PC, "traffic_suspended")}
    for fn, f in GET.items():
        if not M.defined(fn): chk.unsure(R + ".get", fn, "a query", "it is not defined"); continue
        role = "pub" if "_pub_" in fn else "sub"
        for modes in itertools.product((CLOSED, CONNECTED) if role == "pub" else (CLOSED, CONNECTING, CONNECTED), repeat=2):
            for active in (True, False):
                H = Host(chk, role, modes, active=active); ip = H.ip; st0 = H.st.fork()
                for s, x in ends(chk, R, fn, chk.run(ip, fn, [V(64, H.ctx)], st0.fork())):
                    n += 1; quiet(chk, R + ".get", s, fn, [], ip, st0)
                    for q, (a, b) in evals(s, lambda z: (z.norm(ip.view(z, x, "u")), z.norm(f(H, z)))):
                        if fn.endswith("traffic_suspended"):
                            for q1, z in splits(q, EQ(b, 0)): chk.ob(R + ".get", q1, EQ(a, 0) if z else NE(a, 0), fn=fn, what="%s does not report the context's state" % fn, key="get")
                        else: chk.ob(R + ".get", q, EQ(a, b), fn=fn, what="%s does not report the context's value" % fn, key="get")
    chk.fact(R + ".present", State(), n > 40, fn="rmc_pub_init_context", what="no call could be followed", key="present")

class Only:
    """pass a check through without the side-effect complaints about the named calls"""
    def __init__(s, chk, names): s.chk = chk; s.names = names
    def fact(s, rule, st, ok, fn=None, line=None, what="", key=None, deps=()):
        if key and any(key == "pure-" + n for n in s.names): return True
        return s.chk.fact(rule, st, ok, fn=fn, line=line, what=what, key=key, deps=deps)
    def __getattr__(s, a): return getattr(s.chk, a)
def quietly(chk, R, s, fn, allow, ip, st0, names): quiet(Only(chk, names), R, s, fn, allow, ip, st0)

def definite(chk, rule, s, fn, what, key):
    """a member that certainly has no value: the engine's own doubt about uninitialised bytes is the finding here"""
    f = chk.close(s)
    if f is None or not f.facts.feasible(): chk.proved += 1; return
    chk._viol(rule, f, fn, None, what, "", f.facts.witness([]) or {}, [], key)
def default_address(M, s, t, v):
    v = s.norm(v)
    if not v.t: return v.c == 0
    for e in t["ev"]:
        if e.kind == "sys" and e.name == "inet_aton" and e.x["ok"]:
            src = s.norm(e.args[0].e); w = t["ip"].load(s, e.args[1].e, 4, mem=e.mem, peek=True)
            if s.entails(EQ(v, models.bswap(s, t["ip"].view(s, w, "u"), 32))) or s.entails(EQ(v, t["ip"].view(s, w, "u"))):
                b = keybase(src.t) if src.t else None
                txt = t["ip"].M.globals.get(SYMS[b].name.lstrip("&@")) if b is not None else None
                return txt is None or str_of(txt) in (None, "0.0.0.0", "0")
    return False
def str_of(g): return g.get("str") if isinstance(g, dict) else None

# ------------------------------------------------------------------------------------------------ A04
from rules.pubq import announce, helds
def nodes_of(H, st):
    """every list element the context holds: [(address, list name)]"""
    out = []; chk = H.chk; M = H.M; X = H.X
    if H.role == "pub":
        Ls = [(X.Q, "pub_packet_list", "queued"), (X.I, "pub_packet_list", "inflight"), (X.L, "pub_sub_list", "subscribers")] + [(X.sub(i) + M.member("pub_subscriber", "inflight")[0], "pub_packet_list", "outstanding") for i in X.tracked]
    else:
        Ls = [(X.dr, "sub_packet_list", "ready"), (X.al, "rmc_index_list", "pending acknowledgement")]
        for i in range(H.n()): Ls += [(X.pub(i) + M.member("sub_publisher", "received_pid")[0], "sub_packet_list", "held"), (X.pub(i) + M.member("sub_publisher", "received_interval")[0], "sub_pid_interval_list", "interval")]
    for L, pre, nm in Ls:
        ns, bad = rdlist(chk, H.ip, st, L, pre)
        if bad: return None
        out += [(st.norm(n), nm) for n in ns]
    return out
def empties(chk, R, H, s, fn, queued=False):
    """the lists a context without connections has"""
    M = H.M; X = H.X
    Ls = [(X.I, "pub_packet_list", "sent packets"), (X.L, "pub_sub_list", "subscribers")] if H.role == "pub" else [(X.dr, "sub_packet_list", "ready packets"), (X.al, "rmc_index_list", "pending acknowledgements")]
    if H.role == "sub":
        for i in range(H.n()): Ls += [(X.pub(i) + M.member("sub_publisher", "received_pid")[0], "sub_packet_list", "held packets"), (X.pub(i) + M.member("sub_publisher", "received_interval")[0], "sub_pid_interval_list", "intervals to acknowledge")]
    for L, pre, nm in Ls:
        ns, bad = rdlist(chk, H.ip, s, L, pre)
        chk.fact(R + ".empty", s, not ns and not bad, fn=fn, what="a deactivated context still has %s%s" % (nm, " (%s)" % bad if bad else ""), key="empty-" + nm.replace(" ", "-"))
def closed_down(chk, R, t):
    H = t.H; s = t.st; fn = t.fn
    for q, r in evals(s, lambda z: H.ip.view(z, t.x, "s")): chk.ob(R + ".result", q, EQ(r, 0), fn=fn, what="%s of a valid context reports an error" % fn, key="result")
    for f, ind in H.sock: chk.ob(R + ".sockets", s, EQ(H.sf(s, f), -1), fn=fn, what="a deactivated context keeps its %s" % f, key="sockets-" + f)
    for i in range(H.n()): chk.ob(R + ".connections", s, [EQ(H.cf(s, i, "mode"), CLOSED), EQ(H.cf(s, i, "descriptor", "s"), -1)], fn=fn, what="a deactivated context keeps a connection open", key="connections")
    chk.ob(R + ".connections", s, EQ(vale(H.ip, s, H.cv, CV, "active_connection_count") if False else plain(H.ip, s, H.cv + H.M.member(CV, "active_connection_count")[0], 2), 0), fn=fn, what="a deactivated context still counts connections", key="count")
    fds = [fd for fd in H.own]
    shut = [s.norm(H.ip.view(s, e.args[0], "s")) for e in t.new() if e.kind == "sys" and e.name == "close"]
    for fd in fds: chk.fact(R + ".close", s, shut.count(s.norm(fd)) == 1, fn=fn, what="a descriptor is closed %d times when the context shuts down" % shut.count(s.norm(fd)), key="close")
    if H.cbs:
        rm = [s.norm(H.ip.view(s, e.args[1], "s")) for e in t.new() if e.kind == "cb" and e.name == "poll_remove"]
        for fd in fds: chk.fact(R + ".poll", s, rm.count(s.norm(fd)) == 1, fn=fn, what="a descriptor is taken out of the poll loop %d times when the context shuts down" % rm.count(s.norm(fd)), key="poll")

def A04(chk):
    R = "A04"; M = chk.M; n = 0; big = chk.tier != "quick"
    chk.need("rmc_pub_deactivate_context", "rmc_sub_deactivate_context", "rmc_pub_delete_context", "rmc_sub_delete_context", "rmc_pub_activate_context", "rmc_sub_activate_context")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2 slots, up to 3 packets of each kind)", ASSUME_RING, "every sent packet is outstanding for some subscriber (P02)"]
    def go(H, fn, st=None):
        s0 = st or H.st.fork()
        for s, x in ends(chk, R, fn, chk.run(H.ip, fn, [V(64, H.ctx)], s0.fork())): yield Trace(H, fn, s0, s, x)
    def scen(cbs=True):
        """(host, [(record, fields, plainly allocated)], [(record, fields)] never sent)"""
        for modes in itertools.product((CLOSED, CONNECTED), repeat=2):
            slots = [i for i, m in enumerate(modes) if m]
            for k in range((3 if big else 2) + 1 if slots else 1):
                for held in helds(k, slots) if slots else [()]:
                    if not big and k == 2 and len(slots) == 2 and held[0] != held[1] and len(held[0]) + len(held[1]) > 3: continue
                    for q, an in ((0, ()), (1, (0,)), (2, (0, 1)), (0, (1,))) if k < 2 or big else ((1, (1,)),):
                        H = Host(chk, "pub", modes, held=list(held), queued=q, cbs=cbs, pend=[True, False])
                        sts = [(H.st.fork(), [])]
                        for j, c in enumerate(an): sts = [(s2, l + [(a, d, bool(c))]) for s, l in sts for s2, a, d, cp in announce(chk, H.X, s, c, j)]
                        for s, l in sts: yield H, s, l
    for cbs in (True, False):
        for H, st, ann in scen(cbs):
            if not cbs and (ann or len(H.X.infl) > 1): continue
            X = H.X; n += 1
            inv0 = nodes_of(H, st)
            waiting = X.que + [(a, d) for a, d, c in ann]
            for t in go(H, "rmc_pub_deactivate_context", st):
                closed_down(chk, R, t); empties(chk, R, H, t.st, t.fn)
                given_back(chk, R + ".sent", X, t.st, X.infl, t.fn, "a sent packet at shutdown")
                for e in t.new():
                    if e.kind == "free": chk.fact(R + ".alive", t.st, not any(t.st.entails(EQ(e.args[0].e, a)) for a in (H.ctx, X.conns, X.subs)), fn=e.fn, line=e.line, what="deactivating releases the context or one of its tables", key="alive")
                q, bad = X.lst(t.st, "queued")
                chk.fact(R + ".waiting", t.st, not bad and sorted(map(repr, q)) == sorted(repr(t.st.norm(a)) for a, d in waiting), fn=t.fn, what="deactivating does not keep the packets that wait to be sent%s" % (" (%s)" % bad if bad else ""), key="waiting")
                base = len(t.st.events())
                for u in go(H, "rmc_pub_deactivate_context", t.st): again(chk, R, u)
            for t in go(H, "rmc_pub_delete_context", st):
                closed_fds(chk, R, t); gone(chk, R, t, inv0, [(H.ctx, "context"), (X.conns, "connection table"), (X.subs, "subscriber table")], X.infl + waiting)
                given_back(chk, R + ".sent", X, t.st, X.infl, t.fn, "a sent packet at deletion")
                given_back(chk, R + ".queued", X, t.st, waiting, t.fn, "a waiting packet at deletion", plain=[a for a, d, c in ann if c], since=len(st.events()))
    allm = (CLOSED, CONNECTING, CONNECTED)
    for modes in itertools.product(allm, repeat=2):
        if not any(modes): continue
        for ready, held, ivs in ((0, 0, 0), (2, 1, 1), (1, 2, 2), (3, 0, 1)) + (((3, 3, 3),) if big else ()):
            for who in [i for i in range(2) if modes[i] == CONNECTED][: None if big else 1] or [None]:
                if who is None and (held or ivs): continue
                for cbs in (True, False) if (ready, held) in ((0, 0), (2, 1)) else (True,):
                    for acks in ((), (who,)) if who is not None and ivs else ((),):
                        H = Host(chk, "sub", modes, ready=ready, held=held, ivs=ivs, who=who or 0, acks=acks, cbs=cbs, pend=[True, False]); X = H.X; st = H.st.fork(); n += 1
                        inv0 = nodes_of(H, st)
                        for t in go(H, "rmc_sub_deactivate_context", st):
                            closed_down(chk, R, t); empties(chk, R, H, t.st, t.fn)
                            released(chk, R + ".ready", X, t.st, X.ready, t.fn, "ready"); released(chk, R + ".held", X, t.st, X.held, t.fn, "held")
                            for e in t.new():
                                if e.kind == "free": chk.fact(R + ".alive", t.st, not any(t.st.entails(EQ(e.args[0].e, a)) for a in (H.ctx, X.conns, X.pubs)), fn=e.fn, line=e.line, what="deactivating releases the context or one of its tables", key="alive")
                        for t in go(H, "rmc_sub_delete_context", st):
                            closed_fds(chk, R, t); gone(chk, R, t, inv0, [(H.ctx, "context"), (X.conns, "connection table"), (X.pubs, "publisher table")], X.ready + X.held)
                            released(chk, R + ".ready", X, t.st, X.ready, t.fn, "ready"); released(chk, R + ".held", X, t.st, X.held, t.fn, "held")
    # an empty subscriber walks the whole index range: twice is harmless, and it can be activated again
    for first in ([CLOSED, CLOSED], [CONNECTED, CLOSED]):
        H = Host(chk, "sub", first); H.ip.maxunroll = 40000; H.ip.budget = 1 << 40; H.ip.maxsteps = 1 << 40
        for t in go(H, "rmc_sub_deactivate_context"):
            closed_down(chk, R, t)
            if any(first):
                for u in go(H, "rmc_sub_deactivate_context", t.st): again(chk, R, u)
    # activation after shutdown is activation of a new context
    for role in ("pub", "sub"):
        H = Host(chk, role, [CONNECTED, CLOSED]); fn = "rmc_%s_activate_context" % role
        for t in go(H, "rmc_%s_deactivate_context" % role):
            oks = 0
            for u in go(H, fn, t.st):
                failed = [e for e in u.new() if e.kind == "sys" and not e.x["ok"]]
                for q, r in evals(u.st, lambda z: H.ip.view(z, u.x, "s")):
                    if failed: continue
                    oks += 1
                    chk.ob(R + ".again", q, EQ(r, 0), fn=fn, what="a deactivated context cannot be activated again", key="again")
                    for f, ind in H.sock: chk.ob(R + ".again", q, NE(H.sf(q, f), -1), fn=fn, what="activating again does not open %s" % f, key="again-" + f)
            chk.fact(R + ".again", t.st, oks > 0, fn=fn, what="a deactivated context cannot be activated again", key="again")
    chk.fact(R + ".present", State(), n > 20, fn="rmc_pub_deactivate_context", what="no shutdown could be followed", key="present")

def again(chk, R, u):
    """shutting down once more does nothing"""
    s = u.st
    for q, r in evals(s, lambda z: u.H.ip.view(z, u.x, "s")): chk.ob(R + ".twice", q, EQ(r, 0), fn=u.fn, what="deactivating twice reports an error", key="twice-result")
    bad = [e for e in u.new() if e.kind in ("sys", "cb", "free", "alloc")]
    chk.fact(R + ".twice", s, not bad, fn=bad[0].fn if bad else u.fn, line=bad[0].line if bad else None, what="deactivating twice has a further effect (%s)" % (bad[0].name or bad[0].kind if bad else ""), key="twice")
    for f, ind in u.H.sock: chk.ob(R + ".twice", s, EQ(u.H.sf(s, f), -1), fn=u.fn, what="deactivating twice changes %s" % f, key="twice-" + f)
def closed_fds(chk, R, t):
    H = t.H; s = t.st
    shut = [s.norm(H.ip.view(s, e.args[0], "s")) for e in t.new() if e.kind == "sys" and e.name == "close"]
    for fd in H.own: chk.fact(R + ".close", s, shut.count(s.norm(fd)) == 1, fn=t.fn, what="a descriptor is closed %d times when the context is deleted" % shut.count(s.norm(fd)), key="close")
def gone(chk, R, t, nodes, tables, packs):
    """everything the context held was released exactly once, and nothing else was"""
    s = t.st; fr = [(e, s.norm(e.args[0].e)) for e in t.new() if e.kind == "free"]
    if nodes is None: chk.unsure(R + ".gone", t.fn, "the lists of the context", "not well-formed at the start"); return
    want = [(s.norm(a), nm) for a, nm in tables] + [(s.norm(a), "%s list element" % nm) for a, nm in nodes] + [(s.norm(S(e.x)), "block allocated on the way") for e in t.new() if e.kind == "alloc"]
    pay = [s.norm(d["payload"]) for a, d in packs] + [s.norm(a) for a, d in packs]
    for a, nm in want:
        k = len([1 for e, b in fr if b == a])
        chk.fact(R + ".gone", s, k == 1, fn=t.fn, what="the %s is released %d times when the context is deleted" % (nm, k), key="gone-" + nm.replace(" ", "-"))
    known = set(a for a, nm in want) | set(pay)
    for e, b in fr: chk.fact(R + ".own", s, b in known or b == C(0), fn=e.fn, line=e.line, what="memory that is not the context's is released", key="own")

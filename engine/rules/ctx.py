"""Shared scenario builders and oracles for the rules about connections, publishers and subscribers."""
from base import *
import models
from models import SEG, CAP
import interp as IP

NIL, MCAST, LISTEN = 0x7FFF, 0x7FFE, 0x7FFD
RD, WR = 1, 2
CLOSED, CONNECTING, CONNECTED = 0, 1, 2
HDR = "packet_header"
CMD = dict(packet=1, ack=2, ctl=3)
ASSUME_CB = "application callbacks do not change library state behind the library's back while it calls them"
ASSUME_RING = "the byte rings behave as stated by C01-C03, which are decided separately on their own code"
ASSUME_LIST = "the linked lists behave as stated by L01-L02, which are decided separately on their own code"

def index_value(ip, key, off, idx):
    """connections[i].connection_index == i (established by rmc_conn_init_connection_vector, never written elsewhere: A03/K02)"""
    b = keybase(key)
    if b is None: return None
    o = IP.ORIGIN.get(b)
    if o is None: return None
    t = ip.place(o[0], o[1])
    if t[2] is not None and t[2][2] == "rmc_connection_vector" and t[2][1]["name"] == "connections":
        return V(16, idx) if idx.t else VC(16, idx.c)
    return None
def parent_value(ip, key, off, idx):
    """the queue node that refers to a packet: the very node the packet was reached through"""
    b = keybase(key)
    o = IP.ORIGIN.get(b) if b is not None else None
    if o is None or key != ((b, 1),): return None
    nb = keybase(o[0])
    if nb is not None and o[1] == 0 and o[0] == ((nb, 1),) and IP.PTYPE.get(nb) == "_pub_packet_node":
        L = IP.OWNER.get(nb)
        if L is not None and L.t:
            t = ip.place(L.t, L.c)
            # list address -> enclosing field name
            n = list_name(ip, L)
            if n == "queued": return V(64, S(nb))
            if n == "inflight":
                ow = list_parent(ip, L)
                if ow == "pub_context": return V(64, S(nb))
    return None
def list_place(ip, L):
    """(struct, field) the list at address L is embedded in"""
    t = ip.typed(L.t, L.c)
    if t is None or t[1] is None: return None
    cur, off = t[1], t[2]; res = None
    while cur in ip.M.structs:
        for m in ip.M.structs[cur]["members"]:
            if m["off"] <= off < m["off"] + max(1, m["size"]):
                if m["kind"] == "struct" and ip.list_struct(m["sname"]): return (cur, m["name"])
                off -= m["off"]; cur = m["sname"]; break
        else: return res
    return res
def list_name(ip, L):
    r = list_place(ip, L); return r[1] if r else None
def list_parent(ip, L):
    r = list_place(ip, L); return r[0] if r else None

def inv(**over):
    d = {("rmc_connection", "mode"): dict(lo=0, hi=2),
         ("rmc_connection", "connection_index"): dict(value=index_value),
         ("rmc_connection", "action"): dict(lo=0, hi=3),
         ("rmc_connection", "descriptor"): dict(lo=-1, hi=1 << 20),
         ("rmc_connection_vector", "size"): dict(lo=0, hi=0x7FFC),
         ("rmc_connection_vector", "connections"): dict(nonnull=True),
         ("rmc_pub_context", "subscribers"): dict(nonnull=True),
         ("rmc_sub_context", "publishers"): dict(nonnull=True),
         ("pub_packet", "parent_node"): dict(value=parent_value),
         ("pub_packet", "ref_count"): dict(lo=0, hi=1 << 20),
         ("pub_context", "next_pid"): dict(lo=1, hi=(1 << 63)),
         ("rmc_connection_vector", "active_connection_count"): dict(lo=0, hi=0x7FFC)}
    for k, v in over.items(): d[k] = v
    return d

def fresh_obj(name, ty): return S(ptr_sym(name, False, ty, "base"))
def val(ip, st, a, struct, path, hint=None, signed=None):
    """current value (entry value when called on the entry state) of a field, as V"""
    off, m = ip.M.member(struct, path)
    return ip.load(st, a + off, m["size"], hint="p" if m["kind"] in ("ptr", "fptr") else None)
def vale(ip, st, a, struct, path, view=None):
    off, m = ip.M.member(struct, path)
    v = ip.load(st, a + off, m["size"], mem=st.mem, peek=True, hint="p" if m["kind"] in ("ptr", "fptr") else None)
    if m["kind"] in ("ptr", "fptr"): return st.norm(v.e)
    return st.norm(ip.view(st, v, view or ("s" if m["kind"] == "s" else "u")))
def at(ip, st, ev, a, struct, path):
    """value of the field at the moment of an event"""
    off, m = ip.M.member(struct, path)
    v = ip.load(st, a + off, m["size"], mem=ev.mem, peek=True, hint="p" if m["kind"] in ("ptr", "fptr") else None)
    if m["kind"] in ("ptr", "fptr"): return st.norm(v.e)
    return st.norm(ip.view(st, v, "s" if m["kind"] == "s" else "u"))
def sub_off(M, struct, path): return M.member(struct, path)[0]

def opq(choices, note=None, effect=None):
    """opaque callee: records a call event, one path per possible result"""
    def f(ip, st, I, name, args):
        out = []
        for i, c in enumerate(choices):
            s = st.fork() if i < len(choices) - 1 else st
            r = c(ip, s) if callable(c) else c
            if r is not None and not isinstance(r, V): r = VC(int(I["ty"][1:]) if I["ty"][0] == "i" else 64, r)
            s.event("opq", name, args, r)
            if effect: effect(ip, s, name, args, r)
            out.append(("ret", s, r))
        return out
    return f
def anyerr(ip, st):
    return V(32, S(new_sym("err#%d" % uniq(), 1, 200)), "s")

def returns(chk, outs, bits=32):
    """(state, signed return value) of normal returns; faults are reported by the caller's rule"""
    for k, st, x in outs:
        if k == "ret": yield st, x
def ret_split(ip, chk, outs, view="s"):
    """[(state, ok?, ret Lin)] split on return value == 0"""
    for st, x in returns(chk, outs):
        for s1, e in evals(st, lambda s: ip.view(s, x, view)):
            for s2, z in splits(s1, EQ(e, 0)): yield s2, z, e
def splits(st, con):
    out = []
    for c in (con, neg(con)):
        t = st.fork()
        if t.try_assume([c]) and t.facts.feasible(): out.append((t, c is con))
    return out
def evs(st, *kinds): return [e for e in st.events() if e.kind in kinds]
def calls(st, name): return [e for e in st.events() if e.kind in ("call", "opq", "cb", "sys", "ext") and e.name == name]
def cbs(st, name): return [e for e in st.events() if e.kind == "cb" and e.name == name]

def faults(chk, outs, rule, name):
    for k, st, x in outs:
        if k == "fault": chk.fact(rule, st, False, what="%s can fault: %s" % (name, x))
    return [o for o in outs if o[0] in ("ret",)]

# --------------------------------------------------------------- bytes appended to a ring
class Pieces:
    """writes into ring space granted on this path, as absolute stream ranges"""
    def __init__(s, ip, st, cb):
        s.items = []; s.ip = ip; s.stray = []
        cb = st.norm(cb)
        for e in st.events():
            if e.kind == "store": dst = st.norm(e.args[0].e); n = C(e.x if isinstance(e.x, int) else 0)
            elif e.kind in ("memcpy", "memset"): dst = st.norm(e.args[0].e); n = st.norm(e.args[2].e)
            elif e.kind == "loop": s.items.append(("loop", e)); continue
            else: continue
            b = keybase(dst.t) if dst.t else None
            if b not in SEG: continue
            c, pos, ln = SEG[b]
            if st.norm(c) != cb: continue
            rel = dst - S(b)
            s.items.append((e.kind, e, st.norm(pos + rel), n, rel, st.norm(ln)))

def appended(chk, rule, ip, st, cb, start, total, fields, payload, fn, what):
    """bytes [start, start+total) of the stream were written: `fields` = [(off,size,Lin expected,name)], `payload` = (off, src Lin, len)"""
    P = Pieces(ip, st, cb)
    loops = [i for i in P.items if i[0] == "loop"]
    todo = [(st, [i for i in P.items if i[0] != "loop"], C(0), [])]
    while todo:
        s, left, cur, got = todo.pop()
        t = s.truth(GE(cur, total))
        if t is None:
            for s2, yes in splits(s, GE(cur, total)): todo.append((s2, left, cur, got))
            continue
        if t:
            check_piece(chk, rule, ip, s, got, fields, payload, fn, what, start); continue
        nxt = None; amb = False
        for i, it in enumerate(left):
            if s.entails(LE(it[3], 0)): continue
            if s.entails(EQ(it[2], start + cur)):
                z = s.truth(GE(it[3], 1))
                if z is None: amb = it
                else: nxt = i
                break
        if amb:
            for s2, yes in splits(s, GE(amb[3], 1)): todo.append((s2, left if yes else [x for x in left if x is not amb], cur, got))
            continue
        if nxt is None:
            if loops:
                chk.undecided.append(dict(rule=rule, at=chk.loc(fn, st.line), function=fn, need=what, why="bytes written inside a loop are not summarised"))
            else:
                chk.fact(rule + ".complete", s, False, fn=fn, what="%s: byte %r of the granted ring space is never filled in" % (what, cur), key="complete")
            continue
        it = left[nxt]
        chk.ob(rule + ".inside", s, [GE(it[4], 0), LE(it[4] + it[3], it[5])], fn=it[1].fn, line=it[1].line, what="%s: a write leaves the granted ring space" % what, key="inside")
        todo.append((s, left[:nxt] + left[nxt + 1:], s.norm(cur + it[3]), got + [(cur,) + it]))

def overlaps(s, off, n, fo, size):
    return not (s.entails(LE(off + n, fo)) or s.entails(GE(off, fo + size)))
def check_piece(chk, rule, ip, s, got, fields, payload, fn, what, start):
    seen = {}
    for off, kind, e, pos, n, rel, ln in got:
        for fo, size, exp, nm in fields:
            if not overlaps(s, off, n, fo, size): continue
            if kind == "store":
                if s.entails(EQ(off, fo)) and s.entails(EQ(n, size)):
                    for s2, v in evals(s, lambda x: ip.view(x, e.args[1], "u")):
                        chk.ob(rule + ".field", s2, EQ(v, exp), fn=e.fn, line=e.line, what="%s: wrong %s" % (what, nm), key=nm)
                else:
                    chk.undecided.append(dict(rule=rule, at=chk.loc(e.fn, e.line), function=e.fn, need=nm, why="field written bytewise"))
            elif kind == "memset":
                chk.ob(rule + ".field", s, EQ(exp, 0), fn=e.fn, line=e.line, what="%s: %s is blanked" % (what, nm), key=nm)
            else:
                src = s.norm(s.norm(e.args[1].e) - off)
                sb = keybase(src.t)
                if sb is not None and SYMS[sb].kind in ("alloca", "heap"):
                    d = src - S(sb)
                    first = seen.setdefault(sb, d)
                    if d.t and not s.entails(EQ(d, first)):
                        chk.ob(rule + ".field", s, EQ(d, first), fn=e.fn, line=e.line, what="%s: %s continues from the wrong place in the message being copied" % (what, nm), key=nm)
                        continue
                def f(x): return ip.view(x, ip.load(x, x.norm(src + fo), size, mem=e.mem, peek=True), "u")
                for s2, v in evals(s, f):
                    chk.ob(rule + ".field", s2, EQ(v, exp), fn=e.fn, line=e.line, what="%s: wrong %s" % (what, nm), key=nm)
        if payload is not None:
            po, psrc, plen = payload
            if not overlaps(s, off, n, po, plen): continue
            if kind != "memcpy":
                chk.fact(rule + ".payload", s, False, fn=e.fn, line=e.line, what="%s: payload bytes are not those of the message" % what, key="payload"); continue
            delta = s.norm(e.args[1].e) - off
            b = keybase(s.norm(e.args[1].e).t)
            if b is not None and SYMS[b].kind in ("alloca", "heap") and not s.entails(EQ(delta + po, psrc)):
                # staged through a private buffer
                for s2, r in evals(s, lambda x: staged(ip, x, e, delta + po)):
                    if r == "no": chk.fact(rule + ".payload", s2, False, fn=e.fn, line=e.line, what="%s: payload bytes are not those of the message" % what, key="payload")
                    elif r is None: chk.undecided.append(dict(rule=rule, at=chk.loc(e.fn, e.line), function=e.fn, need="payload", why="payload staged through a buffer"))
                    else: chk.ob(rule + ".payload", s2, EQ(r, psrc), fn=e.fn, line=e.line, what="%s: payload bytes are not those of the message" % what, key="payload")
                continue
            # positions before po inside the same piece are header bytes, checked as fields
            chk.ob(rule + ".payload", s, EQ(delta + po, psrc), fn=e.fn, line=e.line, what="%s: payload bytes are not those of the message, in order" % what, key="payload")
def staged(ip, st, e, addr):
    """where the byte at addr was copied from, when a single block copy put it there"""
    a = st.norm(addr)
    o = e.mem.get(a.t)
    if o is None:
        b = keybase(a.t)
        o = e.mem.get(((b, 1),)) if b is not None else None
        return "no" if o is None or (not o.regions and all(isinstance(c[1], V) for c in o.cells.values())) else None
    if not o.regions and all(isinstance(c[1], V) for c in o.cells.values()): return "no"
    for off, ln, src, snap in o.regions:
        if src is None or src[0] != "mem": return None
        if st.entails(EQ(C(a.c - off), 0)) or (a.c >= off and st.entails(GE(ln, a.c - off + 1))):
            return st.norm(src[1] + (a.c - off))
    return None

def out_of_memory(ip, s):
    """the path saw an allocation callback of the application return nothing"""
    return any(e.kind == "cb" and "alloc" in (e.name or "") and e.ret is not None and s.entails(EQ(e.ret.e, 0)) for e in s.events())

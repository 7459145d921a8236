"""Transfer functions for libc, the kernel interface and the library's own containers."""
import re
from interp import *
import interp as IP

RINGCAP_FIELD = ("circ_buf", "size")
APPS = {}       # symbol -> (fn, bits, arg Lin)
SEG = {}        # segment base symbol -> (cb Lin, absolute position Lin, length Lin)
STREAM = {}     # stream pseudo base symbol -> cb Lin

def ret(st, v=None): return [("ret", st, v)]
def i32(st, e): return V(32, e if isinstance(e, Lin) else C(e), "s") if isinstance(e, Lin) and e.t else VC(32, e if isinstance(e, int) else e.c)

# ------------------------------------------------------------------ heap
def heap_new(ip, st, name, size):
    s = new_sym("%s#%d" % (name, uniq()), 1 << 20, 1 << 47, "heap")
    SYMS[s].field = size
    st.event("alloc", SYMS[s].name, (V(64, S(s)),), x=s)
    return s
def m_malloc(ip, st, I, name, args):
    return ret(st, V(64, S(heap_new(ip, st, "heap", ip.view(st, args[0], "u")))))
def m_calloc(ip, st, I, name, args):
    a = ip.view(st, args[0], "u"); b = ip.view(st, args[1], "u")
    try: sz = a * b
    except ValueError: sz = S(new_sym("calloc", 0, None))
    s = heap_new(ip, st, "heap", sz)
    ip.region(st, S(s), sz, ("const", 0))
    return ret(st, V(64, S(s)))
def m_free(ip, st, I, name, args):
    e = st.norm(args[0].e)
    if not e.t: 
        st.event("free", "free", (args[0],)); return ret(st)
    b = keybase(e.t)
    if b is not None and b in st.freed: st.event("double_free", SYMS[b].name, (args[0],))
    st.event("free", "free", (args[0],))
    if b is not None and e == S(b): st.freed = st.freed | {b}
    return ret(st)

# ------------------------------------------------------------------ memory blocks
def copy_block(ip, st, dst, src, ln):
    snap = dict(st.mem); st.own = set()
    d = ip.chk_addr(st, dst); s = ip.chk_addr(st, src)
    if ip.access: ip.access(st, s, ln, "read")
    n = ln.c if not ln.t else None
    so = st.mem.get(s.t)
    cells = []
    if so is not None and n is not None:
        for off, (sz, v, w) in so.cells.items():
            if s.c <= off and off + sz <= s.c + n and isinstance(v, V): cells.append((off - s.c, sz, v))
    ip.region(st, d, ln, ("mem", s), snap)
    o = ip.wobj(st, d.t)
    for rel, sz, v in cells: o.cells[d.c + rel] = (sz, v, True)
def m_memcpy(ip, st, I, name, args):
    ln = ip.view(st, args[2], "u")
    ln = st.norm(ln)
    st.event("memcpy", name, (args[0], args[1], V(64, ln)))
    if not ln.t and ln.c == 0: return ret(st, args[0])
    if ln.t and st.entails(LE(ln, 0)): return ret(st, args[0])
    copy_block(ip, st, args[0].e, args[1].e, ln)
    return ret(st, args[0])
def m_memset(ip, st, I, name, args):
    ln = st.norm(ip.view(st, args[2], "u"))
    c = args[1].e
    st.event("memset", name, (args[0], args[1], V(64, ln)))
    if not ln.t and ln.c == 0: return ret(st, args[0])
    ip.region(st, args[0].e, ln, ("const", c.c & 255) if not c.t else None)
    return ret(st, args[0])

# ------------------------------------------------------------------ byte order
def bswap(st, e, bits):
    e = st.norm(e)
    if not e.t:
        return C(int.from_bytes((e.c & ((1 << bits) - 1)).to_bytes(bits // 8, "big"), "little"))
    k = ("bswap", bits, e)
    if k in MEMO: return MEMO[k]
    s = new_sym("bswap%d(%r)" % (bits, e), 0, (1 << bits) - 1)
    MEMO[k] = S(s); MEMO[("bswap", bits, S(s))] = e
    APPS[s] = ("bswap", bits, e)
    return S(s)
def m_bswap(ip, st, I, name, args):
    N = args[0].bits
    return ret(st, V(N, bswap(st, ip.view(st, args[0], "u"), N)))
def m_hton(bits):
    def f(ip, st, I, name, args):
        a = args[0]
        rb = int(I["ty"][1:])
        e = ip.view(st, a, "u")
        if a.bits != bits:
            lo, hi = st.facts.range(st.norm(e))
            if hi is None or hi >= (1 << bits): e = ip.and_const(st, e, (1 << bits) - 1)
        return ret(st, V(rb, bswap(st, e, bits)))
    return f

# ------------------------------------------------------------------ errno & kernel
def errno_addr(): return S(glob_sym("__errno"))
def set_errno(ip, st, vals=None):
    s = new_sym("errno#%d" % uniq(), 1, 133, "val")
    ip.store(st, errno_addr(), V(32, S(s), "s"), 4)
    return S(s)
def m_errno(ip, st, I, name, args): return ret(st, V(64, errno_addr()))
def fail(ip, st, name, args, x=None):
    f = st.fork()
    er = set_errno(ip, f)
    f.event("sys", name, args, VC(32, -1), x=dict(ok=False, errno=er, **(x or {})))
    return ("ret", f, er)
def sysfd(st, name):
    return S(new_sym("%s_fd#%d" % (name, uniq()), 0, (1 << 20), "val"))
def simple_sys(okval=0, fd=False, wide=False):
    def f(ip, st, I, name, args):
        bits = int(I["ty"][1:])
        tag, fst, er = fail(ip, st, name, args)
        v = V(32, sysfd(st, name), "s") if fd else VC(bits, okval)
        st.event("sys", name, args, v, x=dict(ok=True))
        return [("ret", st, v), ("ret", fst, VC(bits, -1))]
    return f
def m_close(ip, st, I, name, args):
    st.event("sys", name, args, VC(32, 0), x=dict(ok=True))
    return ret(st, VC(32, 0))
def m_accept(ip, st, I, name, args):
    tag, fst, er = fail(ip, st, name, args)
    v = V(32, sysfd(st, name), "s")
    e = st.norm(args[1].e)
    if e.t: ip.region(st, e, C(16), ("app", ("peer_addr#%d" % uniq(),)))
    st.event("sys", name, args, v, x=dict(ok=True))
    return [("ret", st, v), ("ret", fst, VC(32, -1))]
def m_getsockname(ip, st, I, name, args):
    tag, fst, er = fail(ip, st, name, args)
    ip.region(st, args[1].e, C(16), ("app", ("sockname#%d" % uniq(),)))
    v = VC(32, 0)
    st.event("sys", name, args, v, x=dict(ok=True))
    return [("ret", st, v), ("ret", fst, VC(32, -1))]
def m_getsockopt(ip, st, I, name, args):
    tag, fst, er = fail(ip, st, name, args)
    s = new_sym("so_error#%d" % uniq(), 0, 133, "val")
    ip.store(st, args[3].e, V(32, S(s), "s"), 4)
    v = VC(32, 0)
    st.event("sys", name, args, v, x=dict(ok=True, value=S(s)))
    return [("ret", st, v), ("ret", fst, VC(32, -1))]
def m_fcntl(ip, st, I, name, args):
    st.event("sys", name, args, VC(32, 0), x=dict(ok=True))
    return ret(st, VC(32, 0))
def iov(ip, st, p, cnt):
    """list of (base Lin, len Lin), or None when the count is not constant"""
    cnt = st.norm(cnt)
    if cnt.t:
        lo, hi = st.facts.range(cnt)
        if lo == hi and lo is not None: cnt = C(lo)
        else: return None
    out = []
    for i in range(min(cnt.c, 8)):
        b = ip.load(st, p + 16 * i, 8, hint="p").e
        l = ip.view(st, ip.load(st, p + 16 * i + 8, 8), "u")
        out.append((st.norm(b), st.norm(l)))
    return out
def m_xferv(ip, st, I, name, args):
    c = ip.view(st, args[2], "s")
    v = iov(ip, st, args[1].e, c)
    tag, fst, er = fail(ip, st, name, args, dict(iov=v))
    hi = None
    s = new_sym("%s_n#%d" % (name, uniq()), 0, (1 << 31) - 1, "val")
    if v is not None:
        tot = C(0)
        for b, l in v: tot = tot + l
        if not st.try_assume([LE(S(s), tot)]): return [("ret", fst, VC(64, -1))]
        if name == "readv":
            for j, (b, l) in enumerate(v):
                if b.t and not st.entails(LE(l, 0)): ip.region(st, b, l, ("app", ("net#%d.%d" % (uniq(), j),)))
    st.event("sys", name, args, V(64, S(s), "s"), x=dict(ok=True, iov=v))
    return [("ret", st, V(64, S(s), "s")), ("ret", fst, VC(64, -1))]
def m_sendmsg(ip, st, I, name, args):
    # msghdr: name 0, namelen 8, iov 16, iovlen 24
    p = args[1].e
    nm = ip.load(st, p, 8, hint="p").e
    v = None; dst = None
    io = ip.load(st, p + 16, 8, hint="p").e
    cnt = st.norm(ip.view(st, ip.load(st, p + 24, 8), "u"))
    if st.norm(nm).t:
        dst = dict(port=ip.view(st, ip.load(st, nm + 2, 2), "u"), addr=ip.view(st, ip.load(st, nm + 4, 4), "u"))
    if not cnt.t: v = iov(ip, st, io, cnt)
    x = dict(iov=v, iovp=io, cnt=cnt, dst=dst)
    tag, fst, er = fail(ip, st, name, args, x)
    s = new_sym("sendmsg_n#%d" % uniq(), 0, (1 << 31) - 1, "val")
    st.event("sys", name, args, V(64, S(s), "s"), x=dict(ok=True, **x))
    return [("ret", st, V(64, S(s), "s")), ("ret", fst, VC(64, -1))]
def m_recvfrom(ip, st, I, name, args):
    tag, fst, er = fail(ip, st, name, args)
    ln = ip.view(st, args[2], "u")
    s = new_sym("recv_n#%d" % uniq(), 0, (1 << 31) - 1, "val")
    st.assume(LE(S(s), ln))
    t = "dgram#%d" % uniq()
    ip.region(st, args[1].e, ln, ("app", (t,)))
    a = st.norm(args[4].e)
    if a.t: ip.region(st, a, C(16), ("app", ("src_addr#%d" % uniq(),)))
    st.event("sys", name, args, V(64, S(s), "s"), x=dict(ok=True, tag=t))
    return [("ret", st, V(64, S(s), "s")), ("ret", fst, VC(64, -1))]
def m_now(ip, st, I, name, args):
    s = new_sym("now%d" % uniq(), 1, 1 << 60, "val"); SYMS[s].note = "now"
    if st.now is not None: st.assume(GE(S(s), st.now))
    st.now = S(s)
    st.event("now", name, (), V(64, S(s), "s"))
    return ret(st, V(64, S(s), "s"))
def m_aton(ip, st, I, name, args):
    f = st.fork()
    ip.region(st, args[1].e, C(4), ("app", ("inet_aton(%r)" % (st.norm(args[0].e),),)))
    st.event("sys", name, args, VC(32, 1), x=dict(ok=True))
    f.event("sys", name, args, VC(32, 0), x=dict(ok=False))
    return [("ret", st, VC(32, 1)), ("ret", f, VC(32, 0))]
def m_rand(ip, st, I, name, args):
    s = new_sym("rand#%d" % uniq(), 0, (1 << 31) - 1); SYMS[s].note = "rand"
    v = V(32, S(s), "s")
    st.event("rand", name, args, v)
    return ret(st, v)
def m_abort(ip, st, I, name, args): return [("abort", st, name)]
def m_nop(ip, st, I, name, args):
    r = None
    if I["ty"] != "v":
        r = VC(int(I["ty"][1:]), 0) if I["ty"][0] == "i" else V(64, S(ptr_sym("ret(%s)" % name, False, None, "base")))
    st.event("ext", name, args, r)
    return ret(st, r)

def text_max(ip, st, v):
    """(state, longest text a pointer may name without its NUL) when that is known: the literals, and inet_ntoa's answer"""
    e = st.norm(v.e); b = keybase(e.t) if e.t else None
    if b is None: return None
    nm = SYMS[b].name
    g = ip.M.globals.get(nm[1:]) if SYMS[b].kind == "global" else None
    if g is not None and "str" in g and e - S(b) == C(0): return len(g["str"].split("\0")[0].encode())
    if nm.startswith("ret(inet_ntoa"): return 15
    return None
PRINT = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([diouxXcspnmeEfFgGaA%])")
def directives(fmt):
    """[(text before, None) | directive match]"""
    return list(PRINT.finditer(fmt))
def printed_max(ip, st, fmt, args):
    """(state, longest text) of a formatted print, the state being one in which it is reached; None: not known"""
    n = len(PRINT.sub("", fmt).encode()); i = 0; st = st.fork()
    for m in directives(fmt):
        fl, w, pr, ln, c = m.groups()
        dot = "." in m.group(0)
        if c == "%": n += 1; continue
        if c in "mn" or w == "*" or pr == "*" or i >= len(args): return None
        a = args[i]; i += 1
        width = int(w or 0); prec = int(pr or 0)
        if c == "s":
            k = text_max(ip, st, a)
            if k is None:
                if not dot: return None
                k = prec
            elif dot: k = min(k, prec)
        elif c == "c": k = 1
        elif c == "p": k = 18
        elif c in "diouxX":
            base_ = 16 if c in "xX" else 8 if c == "o" else 10
            v = ip.view(st, a, "s" if c in "di" else "u"); k = None
            for d in range(20, 0, -1):
                t = st.fork()
                if d == 1 or t.try_assume([GE(v, base_ ** (d - 1))]) and t.facts.feasible(): k = max(d, prec); pos = t; break
            for d in range(20, 0, -1):
                t = st.fork()
                if c in "di" and t.try_assume([LE(v, -(base_ ** (d - 1)))]) and t.facts.feasible():
                    if max(d, prec) + 1 > k: k = max(d, prec) + 1; pos = t
                    break
            st = pos
            if "+" in fl or " " in fl or "#" in fl: k += 2
        else: return None
        n += max(k, width)
    return st, n
def const_text(ip, st, v):
    e = st.norm(v.e); b = keybase(e.t) if e.t else None
    if b is None or SYMS[b].kind != "global": return None
    g = ip.M.globals.get(SYMS[b].name[1:])
    return g["str"] if g is not None and "str" in g and e - S(b) == C(0) else None
def put_text(ip, st, d, k, tag):
    """k bytes of text at d"""
    e = st.norm(d.e)
    if e.t: ip.region(st, e, k if isinstance(k, Lin) else C(k), ("app", ("%s#%d" % (tag, uniq()),)))
def m_strcpy(ip, st, I, name, args):
    k = text_max(ip, st, args[1])
    if name in ("strncpy",) and len(args) > 2: put_text(ip, st, args[0], ip.view(st, args[2], "u"), "text")
    elif k is not None and name == "strcpy": put_text(ip, st, args[0], k + 1, "text")
    st.event("ext", name, args, args[0])
    return ret(st, args[0])
def m_sprintf(ip, st, I, name, args):
    lim = 1 if name == "snprintf" else 0
    f = const_text(ip, st, args[1 + lim])
    r = printed_max(ip, st, f, args[2 + lim:]) if f is not None else None
    if lim:
        n = ip.view(st, args[1], "u")
        if r is not None and st.entails(GE(n, r[1] + 1)): n = C(r[1] + 1)
        put_text(ip, st, args[0], n, "text")
    elif r is not None:
        e = st.norm(args[0].e)
        if ip.access and e.t: ip.access(r[0], e, C(r[1] + 1), "written")
        h = ip.access; ip.access = None
        try: put_text(ip, st, args[0], r[1] + 1, "text")
        finally: ip.access = h
    v = V(32, S(new_sym("printed#%d" % uniq(), 0, 1 << 20)), "s")
    st.event("ext", name, args, v)
    return ret(st, v)

LIBC = {"malloc": m_malloc, "calloc": m_calloc, "free": m_free, "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
        "bswap": m_bswap, "htonl": m_hton(32), "ntohl": m_hton(32), "htons": m_hton(16), "ntohs": m_hton(16),
        "__errno_location": m_errno, "socket": simple_sys(fd=True), "setsockopt": simple_sys(), "bind": simple_sys(),
        "listen": simple_sys(), "connect": simple_sys(), "shutdown": simple_sys(), "close": m_close, "accept": m_accept, "accept4": m_accept, "ioctl": m_fcntl,
        "getsockname": m_getsockname, "getsockopt": m_getsockopt, "fcntl": m_fcntl, "readv": m_xferv, "writev": m_xferv,
        "sendmsg": m_sendmsg, "recvfrom": m_recvfrom, "inet_aton": m_aton, "rand_r": m_rand, "__assert_fail": m_abort,
        "exit": m_abort, "abort": m_abort, "rmc_usec_monotonic_timestamp": m_now, "rmc_log": m_nop, "strcpy": m_strcpy, "strncpy": m_strcpy,
        "inet_ntoa": m_nop, "strerror": m_nop, "perror": m_nop, "fprintf": m_nop, "signal": m_nop, "sprintf": m_sprintf, "snprintf": m_sprintf,
        "printf": m_nop, "puts": m_nop, "putchar": m_nop}

# ------------------------------------------------------------------ ring buffer (client view)
CAP = 0xFF78 - 1
def cb_get(ip, st, cb):
    u = ip.gget(st, cb, "in_use"); p = ip.gget(st, cb, "pos")
    return u, p
def stream_sym(st, cb):
    k = ("stream", st.norm(cb))
    if k not in MEMO:
        MEMO[k] = new_sym("stream(%r)" % (st.norm(cb),), 1 << 20, 1 << 47, "base")
        STREAM[MEMO[k]] = st.norm(cb)
    return MEMO[k]
def cb_in_use(ip, st, I, name, args):
    return ret(st, V(32, cb_get(ip, st, args[0].e)[0]))
def cb_available(ip, st, I, name, args):
    return ret(st, V(32, C(CAP) - cb_get(ip, st, args[0].e)[0]))
def cb_init(ip, st, I, name, args):
    st.event("cb_init", name, args)
    ip.gset(st, args[0].e, "in_use", C(0)); ip.gset(st, args[0].e, "pos", C(0))
    for f, v, s in (("buffer", args[1], 8), ("size", args[2], 4), ("start_ind", VC(32, 0), 4), ("stop_ind", VC(32, 0), 4)):
        ip.store(st, args[0].e + ip.M.member("circ_buf", f)[0], v, s)
    return ret(st)
def cb_alloc(ip, st, I, name, args):
    cb = st.norm(args[0].e); ln = st.norm(ip.view(st, args[1], "u"))
    u, p = cb_get(ip, st, cb)
    out = []
    f = st.fork()
    if f.try_assume([GT(u + ln, CAP)]):
        f.event("cb_alloc", name, args, VC(32, 12), x=dict(ok=False, cb=cb, len=ln))
        out.append(("ret", f, VC(32, 12)))
    if not st.try_assume([LE(u + ln, CAP)]): return out
    wpos = u + p
    for nseg in (0, 1, 2):
        s = st.fork()
        if nseg == 0 and not s.try_assume([EQ(ln, 0)]): continue
        if nseg == 1 and not s.try_assume([GE(ln, 1)]): continue
        if nseg == 2 and not s.try_assume([GE(ln, 2)]): continue
        b1 = new_sym("seg1#%d" % uniq(), 1 << 20, 1 << 47, "heap"); b2 = None
        l1 = ln; l2 = C(0)
        if nseg == 2:
            l1 = S(new_sym("seg1len#%d" % uniq(), 1, CAP)); s.assume(LE(l1, ln - 1)); l2 = ln - l1
            b2 = new_sym("seg2#%d" % uniq(), 1 << 20, 1 << 47, "heap")
        SEG[b1] = (cb, wpos, l1); SYMS[b1].field = l1; SYMS[b1].note = "track"
        a1 = V(64, S(b1)); a2 = NULL
        if b2 is not None:
            SEG[b2] = (cb, wpos + l1, l2); SYMS[b2].field = l2; a2 = V(64, S(b2))
        ip.store(s, args[2].e, a1, 8); ip.store(s, args[3].e, V(32, l1) if l1.t else VC(32, l1.c), 4)
        ip.store(s, args[4].e, a2, 8); ip.store(s, args[5].e, V(32, l2) if l2.t else VC(32, l2.c), 4)
        ip.gset(s, cb, "in_use", u + ln)
        s.event("cb_alloc", name, args, VC(32, 0), x=dict(ok=True, cb=cb, len=ln, b1=b1, l1=l1, b2=b2, l2=l2, pos=wpos))
        out.append(("ret", s, VC(32, 0)))
    return out
def cb_read_offset(ip, st, I, name, args, off=None):
    if name == "circ_buf_read":
        cb, tgt, n, got = args; off = C(0)
    else:
        cb, offv, tgt, n, got = args; off = ip.view(st, offv, "u")
    cb = st.norm(cb.e); n = st.norm(ip.view(st, n, "u"))
    u, p = cb_get(ip, st, cb)
    out = []
    f = st.fork()
    if f.try_assume([GT(off, u)]):
        f.event("cb_read", name, args, VC(32, 22), x=dict(ok=False))
        out.append(("ret", f, VC(32, 22)))
    if not st.try_assume([LE(off, u)]): return out
    for short in (False, True):
        s = st.fork()
        ln = n if not short else u - off
        if not s.try_assume([GE(u - off, n)] if not short else [LT(u - off, n)]): continue
        ss = stream_sym(s, cb)
        if not s.entails(LE(ln, 0)) : ip.region(s, tgt.e, s.norm(ln), ("mem", S(ss) + p + off), {})
        if s.norm(got.e).t: ip.store(s, got.e, V(32, ln) if ln.t else VC(32, ln.c), 4)
        s.event("cb_read", name, args, VC(32, 0), x=dict(ok=True, cb=cb, off=off, len=ln, tgt=tgt.e, pos=p + off))
        out.append(("ret", s, VC(32, 0)))
    return out
def cb_free(ip, st, I, name, args):
    cb = st.norm(args[0].e); n = st.norm(ip.view(st, args[1], "u"))
    u, p = cb_get(ip, st, cb)
    out = []
    for c, d in (([GE(u, n)], n), ([LT(u, n)], u)):
        s = st.fork()
        if not s.try_assume(c): continue
        d = s.norm(d)
        ip.gset(s, cb, "in_use", u - d); ip.gset(s, cb, "pos", p + d)
        if s.norm(args[2].e).t: ip.store(s, args[2].e, V(32, u - d) if (u - d).t else VC(32, (u - d).c), 4)
        s.event("cb_free", name, args, VC(32, 0), x=dict(cb=cb, asked=n, done=d))
        out.append(("ret", s, VC(32, 0)))
    return out
def cb_trim(ip, st, I, name, args):
    cb = st.norm(args[0].e); n = st.norm(ip.view(st, args[1], "u"))
    u, p = cb_get(ip, st, cb)
    out = []
    for c, r in (([LE(u, n)], u), ([GT(u, n)], n)):
        s = st.fork()
        if not s.try_assume(c): continue
        ip.gset(s, cb, "in_use", s.norm(r))
        s.event("cb_trim", name, args, None, x=dict(cb=cb, to=r))
        out.append(("ret", s, None))
    return out
def cb_read_segment(ip, st, I, name, args):
    cb = st.norm(args[0].e); n = st.norm(ip.view(st, args[1], "u"))
    u, p = cb_get(ip, st, cb)
    out = []
    for c, x in (([GE(n, u)], u), ([LT(n, u)], n)):
        s0 = st.fork()
        if not s0.try_assume(c): continue
        for k in (0, 1, 2):
            s = s0.fork()
            if not s.try_assume([EQ(x, 0)] if k == 0 else ([GE(x, 1)] if k == 1 else [GE(x, 2)])): continue
            l1 = x if k else C(0); l2 = C(0); a1 = a2 = C(0); b1 = b2 = None
            if k == 2:
                l1 = S(new_sym("rseg1len#%d" % uniq(), 1, CAP)); s.assume(LE(l1, x - 1)); l2 = x - l1
                b2 = new_sym("rseg2#%d" % uniq(), 1 << 20, 1 << 47, "base")
                SEG[b2] = (cb, p + l1, l2); a2 = S(b2)
            if k:
                b1 = new_sym("rseg1#%d" % uniq(), 1 << 20, 1 << 47, "base")
                SEG[b1] = (cb, p, l1); a1 = S(b1)
            def w(i, e, bits):
                e = s.norm(e)
                ip.store(s, args[i].e, V(bits, e) if e.t else VC(bits, e.c), bits // 8)
            w(2, a1, 64); w(3, l1, 32); w(4, a2, 64); w(5, l2, 32)
            s.event("cb_seg", name, args, VC(32, 0), x=dict(cb=cb, l1=l1, l2=l2, b1=b1, b2=b2, pos=p, asked=n))
            out.append(("ret", s, VC(32, 0)))
    return out
RING = {"circ_buf_init": cb_init, "circ_buf_in_use": cb_in_use, "circ_buf_available": cb_available, "circ_buf_alloc": cb_alloc,
        "circ_buf_read_offset": cb_read_offset, "circ_buf_read": cb_read_offset, "circ_buf_free": cb_free, "circ_buf_trim": cb_trim,
        "circ_buf_read_segment": cb_read_segment}

# ------------------------------------------------------------------ lists (client view)
class ListT:
    """layout of one list type"""
    def __init__(s, M, pre):
        s.pre = pre; s.node = None
        for n in ("_%s_node" % pre[:-5] if pre.endswith("_list") else "", "_%s_node" % pre):
            if n in M.structs: s.node = n
        s.list = "_" + pre
        s.next = M.member(s.node, "next")[0]; s.prev = M.member(s.node, "prev")[0]; s.owner = M.member(s.node, "owner")[0]
        s.dsize = M.member(s.node, "data")[1]["size"]
        s.head = M.member(s.list, "head")[0]; s.tail = M.member(s.list, "tail")[0]; s.count = M.member(s.list, "elem_count")[0]

def lfield(ip, st, a, size=8, hint="p"): return st.norm(ip.load(st, a, size, hint=hint).e)
def pv(e): return V(64, e)
def count_add(ip, st, t, L, d):
    c = ip.load(st, L + t.count, 4)
    e = st.norm(ip.view(st, c, "u") + d)
    lo, hi = st.facts.range(e)
    if d > 0 and st.truth(LE(e, (1 << 32) - 1)) is None: st.assume(LE(e, (1 << 31)))
    ip.store(st, L + t.count, V(32, e) if e.t else VC(32, e.c), 4, raw=True)
def wlink(ip, st, a, e): ip.store(st, a, pv(e), 8, raw=True)
def new_node(ip, st, t, data=None):
    s = new_sym("node#%d" % uniq(), 1 << 20, 1 << 47, "heap")
    PTYPE[s] = t.node; SYMS[s].field = C(ip.M.size(t.node))
    return s
def put_data(ip, st, t, node, args, byval):
    """store data argument(s) at node+0"""
    a = args
    if byval:
        copy_block(ip, st, node, a.e, C(t.dsize))
    else:
        ip.store(st, node, a, t.dsize, raw=True)
def datarepr(ip, st, t, node):
    try: return st.norm(ip.load(st, node, min(t.dsize, 8), peek=True, mem=st.mem, hint="p" if t.pre in PTRDATA else None).e)
    except Exception: return None
PTRDATA = ("pub_packet_list", "pub_sub_list", "sub_packet_list")

def nonempty_split(ip, st, t, L):
    h = lfield(ip, st, L + t.head)
    tr = st.truth(EQ(h, 0))
    if tr is None: raise Split([[GE(h, 1 << 20)], [EQ(h, 0)]])
    return h, not tr
def do_link(ip, st, t, L, node, where, ref=None, x=None):
    L = st.norm(L); node = st.norm(node)
    h, ne = nonempty_split(ip, st, t, L)
    tl = lfield(ip, st, L + t.tail)
    if where in ("before", "after"):
        ref = st.norm(ref)
        same = EQ(ref, h if where == "before" else tl)
        tr = st.truth(same)
        if tr is None: raise Split([[neg(same)], [same]])
        if tr: eff = "head" if where == "before" else "tail"
        else: eff = "mid"
    else: eff = where
    wlink(ip, st, node + t.owner, L)
    if not ne:
        wlink(ip, st, node + t.next, C(0)); wlink(ip, st, node + t.prev, C(0))
        wlink(ip, st, L + t.head, node); wlink(ip, st, L + t.tail, node)
    elif eff == "head":
        wlink(ip, st, node + t.next, h); wlink(ip, st, node + t.prev, C(0)); wlink(ip, st, h + t.prev, node); wlink(ip, st, L + t.head, node)
    elif eff == "tail":
        wlink(ip, st, node + t.prev, tl); wlink(ip, st, node + t.next, C(0)); wlink(ip, st, tl + t.next, node); wlink(ip, st, L + t.tail, node)
    elif eff == "mid":
        a, b = (t.next, t.prev) if where == "after" else (t.prev, t.next)
        o = lfield(ip, st, ref + a)
        wlink(ip, st, node + a, o); wlink(ip, st, node + b, ref); wlink(ip, st, ref + a, node)
        if o.t: wlink(ip, st, o + b, node)
    elif eff == "sorted":
        def fresh(nm): 
            s = ptr_sym("%s#%d" % (nm, uniq()), False, t.node); SYMS[s].taint = "sorted position"; return S(s)
        wlink(ip, st, L + t.head, fresh("head")); wlink(ip, st, L + t.tail, fresh("tail"))
        for f in (t.next, t.prev):
            s = ptr_sym("nb#%d" % uniq(), True, t.node); SYMS[s].taint = "sorted position"
            wlink(ip, st, node + f, S(s))
    count_add(ip, st, t, L, 1)
    d = dict(list=L, node=node, where=where, ref=ref, t=t.pre, data=datarepr(ip, st, t, node))
    if x: d.update(x)
    st.event("link", t.pre, (pv(L), pv(node)), x=d)
def do_unlink(ip, st, t, node):
    node = st.norm(ip.chk_addr(st, node))
    L = lfield(ip, st, node + t.owner)
    if not L.t: raise Fault("unlink of a node that is in no list")
    h = lfield(ip, st, L + t.head); tl = lfield(ip, st, L + t.tail)
    ish = st.truth(EQ(node, h)); ist = st.truth(EQ(node, tl))
    if ish is None: raise Split([[EQ(node, h)], [NE(node, h)]])
    if ist is None: raise Split([[EQ(node, tl)], [NE(node, tl)]])
    nx = lfield(ip, st, node + t.next) if not ist else C(0)
    pr = lfield(ip, st, node + t.prev) if not ish else C(0)
    data = datarepr(ip, st, t, node)
    if ish:
        wlink(ip, st, L + t.head, nx)
        if nx.t: 
            if st.truth(NE(nx, 0)) is None: st.assume(GE(nx, 1 << 20))
            wlink(ip, st, nx + t.prev, C(0))
    else:
        if pr.t:
            if st.truth(NE(pr, 0)) is None: st.assume(GE(pr, 1 << 20))
            wlink(ip, st, pr + t.next, nx)
    if ist:
        wlink(ip, st, L + t.tail, pr)
        if pr.t and not ish: wlink(ip, st, pr + t.next, C(0))
    elif nx.t and not ish:
        if st.truth(NE(nx, 0)) is None: st.assume(GE(nx, 1 << 20))
        wlink(ip, st, nx + t.prev, pr)
    c = st.norm(ip.view(st, ip.load(st, L + t.count, 4), "u"))
    if ish and ist:
        if st.truth(EQ(c, 1)) is None: st.assume(EQ(c, 1))
        ip.store(st, L + t.count, VC(32, 0), 4, raw=True)
    else:
        if st.truth(GE(c, 2)) is None: st.assume(GE(c, 2))
        ip.store(st, L + t.count, V(32, st.norm(c - 1)) if st.norm(c - 1).t else VC(32, st.norm(c - 1).c), 4, raw=True)
    wlink(ip, st, node + t.next, C(0)); wlink(ip, st, node + t.prev, C(0)); wlink(ip, st, node + t.owner, C(0))
    st.event("unlink", t.pre, (pv(L), pv(node)), x=dict(list=L, node=node, t=t.pre, data=data, head=ish, tail=ist))
def do_nodefree(ip, st, t, node):
    node = st.norm(node)
    st.event("nodefree", t.pre, (pv(node),), x=dict(node=node, t=t.pre))
    b = keybase(node.t)
    if b is not None and b in st.freed: st.event("double_free", SYMS[b].name, (pv(node),))
    if b is not None and node == S(b): st.freed = st.freed | {b}

def list_models(M):
    out = {}
    pres = [n[1:] for n in M.structs if n.endswith("_list") and n.startswith("_") and "elem_count" in [m["name"] for m in M.structs[n]["members"]]]
    for pre in pres:
        t = ListT(M, pre)
        def mk(t):
            def byv(I, i): return bool(I.get("byval") and i < len(I["byval"]) and I["byval"][i])
            def init(ip, st, I, name, args):
                st.event("list_init", t.pre, args, x=dict(list=st.norm(args[0].e)))
                L = args[0].e
                wlink(ip, st, L + t.head, C(0)); wlink(ip, st, L + t.tail, C(0)); ip.store(st, L + t.count, VC(32, 0), 4, raw=True)
                for f in ("user_data", "alloc_node", "free_node"):
                    o = ip.M.member(t.list, f)[0]
                    if f == "user_data": ip.store(st, L + o, args[1], 8)
                    else: ip.store(st, L + o, V(64, S(fun_sym("default_" + f))), 8)
                return ret(st)
            def push(where):
                def f(ip, st, I, name, args):
                    L = st.norm(ip.chk_addr(st, args[0].e))
                    n = new_node(ip, st, t)
                    put_data(ip, st, t, S(n), args[1], byv(I, 1))
                    nonempty_split_pre(ip, st, t, L)
                    do_link(ip, st, t, L, S(n), where)
                    return ret(st, pv(S(n)))
                return f
            def push_node(where):
                def f(ip, st, I, name, args):
                    do_link(ip, st, t, ip.chk_addr(st, args[0].e), ip.chk_addr(st, args[1].e), where)
                    return ret(st, args[1])
                return f
            def ins(where, isnode):
                def f(ip, st, I, name, args):
                    ref = st.norm(ip.chk_addr(st, args[0].e))
                    L = lfield(ip, st, ref + t.owner)
                    k = ("insnode", t.pre, I["id"], ref, st.trace is None or id(st.trace))
                    if isnode: n = args[1].e
                    else:
                        n = S(new_node(ip, st, t)); put_data(ip, st, t, n, args[1], byv(I, 1))
                    do_link(ip, st, t, L, n, where, ref)
                    return ret(st, pv(n))
                return f
            def ins_sorted(dirn, isnode):
                def f(ip, st, I, name, args):
                    L = st.norm(ip.chk_addr(st, args[0].e))
                    nonempty_split(ip, st, t, L)
                    if isnode: n = args[1].e
                    else:
                        n = S(new_node(ip, st, t)); put_data(ip, st, t, n, args[1], byv(I, 1))
                    ce = st.norm(args[2].e)
                    cmp_ = FUNNAME.get(ce.t[0][0]) if ce.t else None
                    do_link(ip, st, t, L, n, "sorted", None, dict(cmp=cmp_, dir=dirn, ud=args[3].e))
                    return ret(st, pv(n))
                return f
            def unlink(ip, st, I, name, args):
                do_unlink(ip, st, t, args[0].e); return ret(st, args[0])
            def delete(ip, st, I, name, args):
                do_unlink(ip, st, t, args[0].e); do_nodefree(ip, st, t, args[0].e); return ret(st)
            def pop(which, isnode):
                def f(ip, st, I, name, args):
                    L = st.norm(ip.chk_addr(st, args[0].e))
                    h, ne = nonempty_split(ip, st, t, L)
                    if not ne:
                        st.event("pop_empty", t.pre, args, x=dict(list=L))
                        return ret(st, NULL if isnode else VC(32, 0))
                    n = h if which == "head" else lfield(ip, st, L + t.tail)
                    if not isnode:
                        copy_block(ip, st, args[1].e, n, C(t.dsize))
                        # typed read so that the value has a stable name
                        if t.pre in PTRDATA or t.dsize <= 8:
                            v = ip.load(st, n, t.dsize, hint="p" if t.pre in PTRDATA else None)
                            ip.store(st, args[1].e, v, t.dsize)
                    do_unlink(ip, st, t, n)
                    if not isnode: do_nodefree(ip, st, t, n)
                    return ret(st, pv(n) if isnode else VC(32, 1))
                return f
            P = t.pre + "_"
            out[P + "init"] = init
            for w in ("head", "tail"):
                out[P + "push_" + w] = push(w); out[P + "push_%s_node" % w] = push_node(w)
                out[P + "pop_" + w] = pop(w, False); out[P + "pop_%s_node" % w] = pop(w, True)
            for w in ("before", "after"):
                out[P + "insert_" + w] = ins(w, False); out[P + "insert_%s_node" % w] = ins(w, True)
            out[P + "insert_sorted"] = ins_sorted("desc", False); out[P + "insert_sorted_rev"] = ins_sorted("asc", False)
            out[P + "insert_sorted_node"] = ins_sorted("desc", True); out[P + "insert_sorted_node_rev"] = ins_sorted("asc", True)
            out[P + "unlink"] = unlink; out[P + "delete"] = delete
        mk(t)
    return out
def nonempty_split_pre(ip, st, t, L): nonempty_split(ip, st, t, L)

def default_models(M, ring=True, lists=True):
    m = dict(LIBC)
    if ring: m.update(RING)
    if lists: m.update(list_models(M))
    return {k: v for k, v in m.items()}

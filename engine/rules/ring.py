"""C01-C03: the byte ring, analysed from its own code (no ring model)."""
from base import *

class Ring:
    """a ring in an arbitrary consistent state"""
    def __init__(s, chk, wrapped):
        M = chk.M; s.chk = chk
        s.cb = ptr_sym("cb", False, "circ_buf", "base")
        s.st = State(); s.o = {f: fld(M, "circ_buf", f) for f in ("start_ind", "stop_ind", "size", "buffer")}
        s.ip = chk.interp(ring=False)
        g = lambda f, n: s.ip.load(s.st, S(s.cb) + s.o[f], n, hint="p" if f == "buffer" else None).e
        s.start, s.stop, s.size = g("start_ind", 4), g("stop_ind", 4), g("size", 4)
        s.buf = g("buffer", 8)
        for c in (GE(s.buf, 1 << 20), GE(s.size, 2), LE(s.size, 1 << 24), LT(s.start, s.size), LT(s.stop, s.size)): s.st.assume(c)
        s.st.assume(LT(s.stop, s.start) if wrapped else GE(s.stop, s.start))
        s.U = s.stop - s.start + (s.size if wrapped else 0)
        s.avail = s.size - 1 - s.U
    def now(s, st, f): 
        e = s.ip.load(st, S(s.cb) + s.o[f], 8 if f == "buffer" else 4, mem=st.mem, peek=True, hint="p" if f == "buffer" else None)
        return s.ip.view(st, e, "u")
    def after(s, st):
        """[(state, start', stop', fill')]"""
        a, b = s.now(st, "start_ind"), s.now(st, "stop_ind")
        out = []
        for c, u in ((GE(b, a), b - a), (LT(b, a), b - a + s.size)):
            t = st.fork()
            if t.try_assume([c]) and t.facts.feasible(): out.append((t, a, b, u))
        return out
    def consistent(s, st, rule, name):
        chk = s.chk
        a, b = s.now(st, "start_ind"), s.now(st, "stop_ind")
        chk.ob(rule + ".range", st, [GE(a, 0), LT(a, s.size), GE(b, 0), LT(b, s.size)], fn=name, what="the ring positions stay inside the store")
        chk.ob(rule + ".store", st, [EQ(s.now(st, "size"), s.size), EQ(s.now(st, "buffer"), s.buf)], fn=name, what="the backing store is not exchanged")
    def unchanged(s, st, rule, name):
        s.chk.ob(rule + ".unchanged", st, [EQ(s.now(st, "start_ind"), s.start), EQ(s.now(st, "stop_ind"), s.stop), EQ(s.now(st, "size"), s.size), EQ(s.now(st, "buffer"), s.buf)], fn=name, what="the ring is unchanged")

def outp(name): return V(64, S(ptr_sym(name, False, None, "base")))
def arg(ip, nm, bits=32): return V(bits, S(new_sym(nm, 0, (1 << bits) - 1)))
def peek(ip, st, p, n): 
    v = ip.load(st, p, n, mem=st.mem, peek=True, hint="p" if n == 8 else None)
    return ip.view(st, v, "u")
def splits(st, con):
    out = []
    for c in (con, neg(con)):
        t = st.fork()
        if t.try_assume([c]) and t.facts.feasible(): out.append((t, c is con))
    return out
def rets(chk, outs, name, R=None):
    """terminal states; asserts must not fire, faults are violations, loops left to the values"""
    for kind, st, x in outs:
        if kind == "ret":
            if R is None: yield st, x; continue
            for s2, _ in evals(st, lambda s: [R.now(s, f) for f in R.o] + ([R.ip.view(s, x, "s"), R.ip.view(s, x, "u")] if x is not None else [])): yield s2, x
        elif kind == "fault": chk.fact("no-fault", st, False, what="the operation can fault: %s" % x)
        elif kind == "abort": chk.fact("no-abort", st, False, what="the operation can abort: %s" % x)
def written_outside(chk, R, st, name, rule):
    """no store into the backing store or through unknown pointers by ring bookkeeping"""
    for e in st.events():
        if e.kind == "store":
            b = keybase(st.norm(e.args[0].e).t)
            chk.fact(rule + ".no-write", st, not (st.norm(R.buf).t and b is not None and S(b) == st.norm(R.buf)), fn=e.fn, line=e.line, what="bookkeeping writes into the stored bytes")

def C01(chk):
    chk.need("circ_buf_init", "circ_buf_alloc", "circ_buf_in_use", "circ_buf_available")
    chk.assume += ["ring size between 2 and 2^24 bytes, positions inside the store on entry (shown to be preserved by C01 and C03)",
                   "a ring is only changed through circ_buf_init/alloc/free/trim"]
    # initial state
    ip = chk.interp(ring=False); st = State(); cb = ptr_sym("cb", False, "circ_buf", "base")
    b = outp("buffer"); n = arg(ip, "buffer_size"); st.assume(GE(n.e, 2)); st.assume(LE(n.e, 1 << 24))
    for s2, r in rets(chk, chk.run(ip, "circ_buf_init", [V(64, S(cb)), b, n], st), "init"):
        o = lambda f: S(cb) + fld(chk.M, "circ_buf", f)
        a, z = peek(ip, s2, o("start_ind"), 4), peek(ip, s2, o("stop_ind"), 4)
        chk.ob("C01.init", s2, [EQ(a, z), LT(a, n.e), EQ(peek(ip, s2, o("size"), 4), n.e), EQ(peek(ip, s2, o("buffer"), 8), b.e)], fn="circ_buf_init", what="a new ring is empty, over the given store and size")
    for wrapped in (False, True):
        for q in ("circ_buf_in_use", "circ_buf_available"):
            R = Ring(chk, wrapped)
            for s2, r in rets(chk, chk.run(R.ip, q, [V(64, S(R.cb))], R.st), q, R):
                chk.ob("C01." + q[9:], s2, EQ(R.ip.view(s2, r, "u"), R.U if q.endswith("use") else R.avail), fn=q, what="%s reports the true amount" % q)
                R.unchanged(s2, "C01", q)
        R = Ring(chk, wrapped)
        ln = arg(R.ip, "len")
        o = [outp(x) for x in ("seg1", "seg1_len", "seg2", "seg2_len")]
        for s2, r in rets(chk, chk.run(R.ip, "circ_buf_alloc", [V(64, S(R.cb)), ln] + o, R.st), "alloc", R):
            rv = R.ip.view(s2, r, "s")
            for s3, ok in splits(s2, EQ(rv, 0)):
                if not ok:
                    chk.ob("C01.refuse-only-if-short", s3, GT(ln.e, R.avail), fn="circ_buf_alloc", what="a reservation is refused only when fewer than n bytes are free")
                    R.unchanged(s3, "C01.refused", "circ_buf_alloc"); continue
                chk.ob("C01.refuse-if-short", s3, LE(ln.e, R.avail), fn="circ_buf_alloc", what="a reservation larger than the free space is refused")
                p1, l1, p2, l2 = peek(R.ip, s3, o[0].e, 8), peek(R.ip, s3, o[1].e, 4), peek(R.ip, s3, o[2].e, 8), peek(R.ip, s3, o[3].e, 4)
                chk.ob("C01.total", s3, EQ(l1 + l2, ln.e), fn="circ_buf_alloc", what="the segments total exactly n bytes")
                for s4, some in splits(s3, GE(ln.e, 1)):
                    if not some: continue
                    chk.ob("C01.first", s4, [GE(l1, 1), EQ(p1, R.buf + R.stop), LE(R.stop + l1, R.size)], fn="circ_buf_alloc", what="the first segment is non-empty, starts right behind the last stored byte and ends inside the store")
                    for s5, two in splits(s4, GE(l2, 1)):
                        if two: chk.ob("C01.second", s5, [EQ(p2, R.buf), EQ(l1, R.size - R.stop), LE(l2, R.start)], fn="circ_buf_alloc", what="the second segment wraps to the start of the store and stops before unconsumed bytes")
                R.consistent(s3, "C01", "circ_buf_alloc")
                for s4, a, z, u in R.after(s3):
                    chk.ob("C01.fill", s4, [EQ(u, R.U + ln.e), EQ(a, R.start)], fn="circ_buf_alloc", what="the fill level grows by exactly n and stored bytes stay where they are")
                written_outside(chk, R, s3, "circ_buf_alloc", "C01")

def logical(R, st, k):
    """[(state, physical index of logical byte k)]"""
    out = []
    for c, e in ((LT(R.start + k, R.size), R.start + k), (GE(R.start + k, R.size), R.start + k - R.size)):
        t = st.fork()
        if t.try_assume([c]) and t.facts.feasible(): out.append((t, e))
    return out
def pieces(chk, R, st, base, off, total, name, rule):
    """the block copies of the path move logical bytes off.. to base.. in order, total bytes"""
    loops = [e for e in st.events() if e.kind == "loop"]
    if loops:
        chk.undecided.append(dict(rule=rule, at=chk.loc(name, loops[0].line), function=name, need="copied bytes", why="copies inside a loop are not summarised"))
        return
    todo = [(st, C(0), 0)]
    evs = [e for e in st.events() if e.kind in ("memcpy", "store")]
    while todo:
        s, done, i = todo.pop()
        while i < len(evs) and (evs[i].kind == "store" or s.entails(EQ(evs[i].args[2].e, 0))):
            i += 1
        if i == len(evs):
            chk.ob(rule + ".count", s, EQ(done, total), fn=name, what="exactly min(n, fill level - offset) bytes are copied")
            continue
        e = evs[i]; n = e.args[2].e
        for s2, some in splits(s, GE(n, 1)):
            if not some: todo.append((s2, done, i + 1)); continue
            chk.ob(rule + ".target", s2, EQ(e.args[0].e, base + done), fn=e.fn, line=e.line, what="each copied piece lands right behind the previous one")
            for s3, ph in logical(R, s2, off + done):
                chk.ob(rule + ".source", s3, [EQ(e.args[1].e, R.buf + ph), LE(ph + n, R.size)], fn=e.fn, line=e.line, what="copied bytes are the stored bytes in arrival order, inside the store")
                todo.append((s3, done + n, i + 1))
def C02(chk):
    chk.need("circ_buf_read", "circ_buf_read_offset", "circ_buf_read_segment")
    chk.assume += ["ring size between 2 and 2^24 bytes, positions inside the store on entry (shown to be preserved by C01 and C03)"]
    for wrapped in (False, True):
        for name in ("circ_buf_read_offset", "circ_buf_read"):
          for withgot in (True, False):
            R = Ring(chk, wrapped)
            n = arg(R.ip, "n"); off = arg(R.ip, "offset") if name.endswith("offset") else VC(32, 0)
            tgt = outp("target"); got = outp("bytes_read") if withgot else NULL
            a = [V(64, S(R.cb))] + ([off] if name.endswith("offset") else []) + [tgt, n, got]
            for s2, r in rets(chk, chk.run(R.ip, name, a, R.st), name, R):
                R.unchanged(s2, "C02", name)
                for s3, ok in splits(s2, EQ(R.ip.view(s2, r, "s"), 0)):
                    if not ok:
                        chk.ob("C02.refuse-only-if-beyond", s3, GT(off.e, R.U), fn=name, what="a read is refused only when its offset exceeds the fill level")
                        chk.fact("C02.refused-no-copy", s3, not any(e.kind == "memcpy" for e in s3.events()), fn=name, what="a refused read copies nothing")
                        continue
                    chk.ob("C02.refuse-if-beyond", s3, LE(off.e, R.U), fn=name, what="a read beyond the fill level is refused")
                    for s4, full in splits(s3, GE(R.U - off.e, n.e)):
                        want = n.e if full else R.U - off.e
                        if withgot: chk.ob("C02.reported", s4, EQ(peek(R.ip, s4, got.e, 4), want), fn=name, what="the reported count is min(n, fill level - offset)")
                        pieces(chk, R, s4, tgt.e, off.e, want, name, "C02")
        R = Ring(chk, wrapped); name = "circ_buf_read_segment"; n = arg(R.ip, "size")
        o = [outp(x) for x in ("seg1", "seg1_len", "seg2", "seg2_len")]
        for s2, r in rets(chk, chk.run(R.ip, name, [V(64, S(R.cb)), n] + o, R.st), name, R):
            R.unchanged(s2, "C02", name)
            p1, l1, p2, l2 = peek(R.ip, s2, o[0].e, 8), peek(R.ip, s2, o[1].e, 4), peek(R.ip, s2, o[2].e, 8), peek(R.ip, s2, o[3].e, 4)
            chk.ob("C02.segments-ok", s2, EQ(R.ip.view(s2, r, "s"), 0), fn=name, what="the segment view succeeds")
            for s3, full in splits(s2, LE(n.e, R.U)):
                chk.ob("C02.segments-total", s3, EQ(l1 + l2, n.e if full else R.U), fn=name, what="the segment view exposes exactly min(n, fill level) bytes")
                for s4, some in splits(s3, GE(l1 + l2, 1)):
                    if not some: continue
                    chk.ob("C02.segment1", s4, [GE(l1, 1), EQ(p1, R.buf + R.start), LE(R.start + l1, R.size)], fn=name, what="the first segment starts at the oldest byte and stays inside the store")
                    for s5, two in splits(s4, GE(l2, 1)):
                        if two: chk.ob("C02.segment2", s5, [EQ(p2, R.buf), EQ(l1, R.size - R.start)], fn=name, what="the second segment continues at the start of the store")

def C03(chk):
    chk.need("circ_buf_free", "circ_buf_trim")
    chk.assume += ["ring size between 2 and 2^24 bytes, positions inside the store on entry (shown to be preserved by C01 and C03)"]
    for wrapped in (False, True):
        for withgot in (True, False):
            R = Ring(chk, wrapped); n = arg(R.ip, "size"); got = outp("in_use") if withgot else NULL; name = "circ_buf_free"
            for s2, r in rets(chk, chk.run(R.ip, name, [V(64, S(R.cb)), n, got], R.st), name, R):
                R.consistent(s2, "C03", name)
                for s3, part in splits(s2, LT(n.e, R.U)):
                    left = R.U - n.e if part else C(0)
                    chk.ob("C03.free-ok", s3, EQ(R.ip.view(s3, r, "s"), 0), fn=name, what="discarding succeeds")
                    if withgot: chk.ob("C03.free-reported", s3, EQ(peek(R.ip, s3, got.e, 4), left), fn=name, what="the reported remaining fill level is the true one")
                    for s4, a, z, u in R.after(s3):
                        chk.ob("C03.free-fill", s4, EQ(u, left), fn=name, what="exactly min(n, fill level) bytes are dropped")
                        if part:
                            for s5, ph in logical(R, s4, n.e):
                                chk.ob("C03.free-oldest", s5, [EQ(a, ph), EQ(z, R.stop)], fn=name, what="the oldest bytes are the ones dropped, the rest stays readable in order")
        R = Ring(chk, wrapped); n = arg(R.ip, "target_len"); name = "circ_buf_trim"
        for s2, r in rets(chk, chk.run(R.ip, name, [V(64, S(R.cb)), n], R.st), name, R):
            R.consistent(s2, "C03.trim", name)
            for s3, part in splits(s2, LT(n.e, R.U)):
                left = n.e if part else R.U
                for s4, a, z, u in R.after(s3):
                    chk.ob("C03.trim-fill", s4, EQ(u, left), fn=name, what="trimming keeps exactly min(target, fill level) bytes")
                    for s5, some in splits(s4, GE(left, 1)):
                        if some: chk.ob("C03.trim-oldest", s5, EQ(a, R.start), fn=name, what="trimming keeps the oldest bytes")

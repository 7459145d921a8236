"""M01, M02: every access the library makes, and every call through a function pointer, on all paths the other rules follow."""
import importlib, re
import base
from rules.ctx import *

RING = ("circ_buf",)
# which other rules' entry points are followed (K02-K04 use the same ones as K01, L and C have their own)
DRIVERS = ["W01", "W02", "W03", "W04", "W05", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "T01", "T02", "A01", "A02", "A03", "A05", "L01", "K01"]
SLOW = ["L02", "A04", "K02"]
MODULES = {}
# tables of these are several in a row: their size is known only where the table was built
TABLES = ("rmc_connection", "pub_subscriber", "sub_publisher")

class Follow(base.Check):
    """runs another rule's entry points; the verdicts are the other rule's own business"""
    def __init__(s, owner, prop, hook):
        super().__init__(prop, owner.M); s.tier = owner.tier; s.hook = hook; s.owner = owner
    def interp(s, *a, **k):
        ip = super().interp(*a, **k); s.hook(ip); return ip
    def run(s, ip, fn, args, st=None):
        outs = super().run(ip, fn, args, st)
        s.owner.note_outs(s, ip, fn, outs); return outs
    def ob(s, *a, **k): return True
    def fact(s, *a, **k): return True
    def unsure(s, *a, **k): return None
    def splitter(s, st, keep, sp):
        """a case distinction made by the rule, after the path was followed: any case will do"""
        for cs in sp.cases:
            t = keep.fork()
            if t.try_assume(cs) and t.facts.feasible(): st.try_assume(cs); return
        raise Dead()

def follow(chk, hook, notes, drivers):
    """[(property, problem or None)]"""
    import check_rules
    chk.note_outs = notes
    for p in drivers:
        f = Follow(chk, p, hook); gap = None
        try: getattr(importlib.import_module("rules." + check_rules.RULES[p]), p)(f)
        except base.ir.AnalysisError as e: gap = str(e)
        except IP.Deadline: raise
        except Exception as e: gap = "internal error: %r" % e
        finally: IP.SPLITTER = chk.splitter
        chk.entries += ["%s: %s" % (p, e) for e in f.entries[:3]]; chk.paths += f.paths; chk.analysed |= f.analysed; chk.calls += f.calls; chk.loops += f.loops; chk.steps += f.steps
        if gap: chk.notes.append("following %s stopped early: %s" % (p, gap)); chk.gaps.append("%s: %s" % (p, gap)); chk.incomplete.append(p)

def extent(M, st, b):
    """bytes of the object a base stands for, or None"""
    y = SYMS[b]
    if y.kind in ("alloca", "heap", "base") and y.field is not None and not isinstance(y.field, tuple):
        return y.field if isinstance(y.field, Lin) else C(y.field)
    if y.kind == "global":
        g = M.globals.get(y.name[1:]); return C(g["size"]) if g and g.get("size") else None
    t = PTYPE.get(b)
    if b in IP.DECLARED and t in M.structs and t not in TABLES: return C(M.size(t))
    return None

FILLED = dict(accept=(1, 2), accept4=(1, 2), getsockname=(1, 2), getsockopt=(3, 4), recvfrom=(4, 5))
def capacity(ip, s, e):
    """(buffer, capacity as the kernel reads it) of a call that fills in a buffer whose length it is told through a pointer"""
    i, j = FILLED[e.name]
    if len(e.args) <= j: return None
    a = s.norm(e.args[i].e); l = s.norm(e.args[j].e)
    if not a.t or not l.t: return None
    return a, ip.view(s, ip.load(s, l, 4, mem=e.mem, peek=True), "u")

def M01(chk): reads(chk, "M01", None)
def reads(chk, R, level):
    M = chk.M; hits = {}; seen = set(); stat = dict(inside=0, unknown=0); objs = {}
    chk.assume += [ASSUME_CB, ASSUME_RING, "pointers handed in by the application name objects as large as their type or their length argument says", "what the other rules assume about the state a call starts in"]
    def access(ip):
        def f(st, e, n, what):
            b = keybase(e.t) if e.t else None
            if b is None: return
            sz = extent(M, st, b)
            if sz is None: stat["unknown"] += 1; return
            n = st.norm(n); d = e - S(b)
            if not n.t and not d.t and not sz.t:
                if n.c <= 0 or 0 <= d.c and d.c + n.c <= sz.c: stat["inside"] += 1; sites.add((st.fn, st.line)); return
            elif st.entails(LE(n, 0)) or st.entails(GE(d, 0)) and st.entails(LE(d + n, sz)): stat["inside"] += 1; sites.add((st.fn, st.line)); return
            k = (st.fn, st.line, what, SYMS[b].name.split("#")[0], d if not d.t else None)
            h = hits.setdefault(k, [])
            if len(h) < 30: h.append((st.fork(), d, n, sz, b))
        return f
    sites = set(); told = [0]
    def hook(ip):
        ip.access = acc = access(ip)
        def called(st, y, args, null):      # a buffer and, right after it, its 16-bit length
            for a, n in zip(args, args[1:]):
                if a.bits == 64 and n.bits == 16:
                    c = st.norm(a.e); l = st.norm(ip.view(st, n, "u"))
                    if c.t: acc(st, c, l, "handed to a callback as reaching"); told[0] += 1
        ip.on_callback = called
        if level is not None: ip.loglevel = level
    def notes(f, ip, fn, outs):
        for k, v in list(hits.items()):
            q, line, what, nm, _ = k
            for st, d, n, sz, b in v:
                for s, yes in splits(st, GT(n, 0)):
                    if yes: chk.ob(R + ".inside", s, [GE(d, 0), LE(d + n, sz)], fn=q, line=line, what="%s is %s outside its %s bytes" % (nm or "an object", what, "" if sz.t else sz.c), key="inside-" + nm.lstrip("%@")[:40])
        hits.clear()
        for k, s, x in outs:
            ev = s.events()
            if k == "fault" and (ip.unroll and ("null dereference" in str(x) or "wild" in str(x)) or "dereference of nothing" in str(x)):
                chk.fact(R + ".valid", s, False, fn=fn, what="%s (%s)" % (x, fn), key="null"); continue
            for e in ev:
                if e.kind == "sys" and e.name in FILLED:
                    for q, c in evals(s, lambda z: capacity(ip, z, e)):
                        b = keybase(c[0].t) if c else None
                        sz = extent(M, q, b) if b is not None else None
                        if sz is not None: chk.ob(R + ".capacity", q, LE(c[0] - S(b) + c[1], sz), fn=e.fn, line=e.line, what="%s is told of more room than there is" % e.name, key="capacity-" + e.name)
                if e.kind in ("uaf", "double_free"): chk.fact(R + ".released", s, False, fn=e.fn, line=e.line, what="memory is %s after it was released" % ("accessed" if e.kind == "uaf" else "released again"), key="released-" + e.kind)
            chk.obls[R + ".released"] = chk.obls.get(R + ".released", 0) + 1; chk.proved += 1
    follow(chk, hook, notes, DRIVERS + (SLOW if chk.tier != "quick" else []))
    chk.obls[R + ".inside"] = chk.obls.get(R + ".inside", 0) + stat["inside"]; chk.proved += stat["inside"]
    chk.notes.append("%d accesses at %d places shown to stay inside their object; %d accesses to memory whose extent the library does not know" % (stat["inside"], len(sites), stat["unknown"]))
    chk.fact(R + ".present", State(), len(sites) > 100, fn="rmc_sub_read", what="hardly any access could be followed", key="present")

# ------------------------------------------------------------------------------------------------ M02
HOLDERS = ("rmc_pub_context", "rmc_sub_context", "rmc_connection_vector")
def M02(chk):
    R = "M02"; M = chk.M; hits = []; seen = {}; counts = {}; last = {}
    chk.assume += [ASSUME_CB, ASSUME_RING, "what the other rules assume about the state a call starts in"]
    def on(ip):
        def f(st, y, args, null):
            fld = SYMS[y].field
            last[0] = (st.fn, st.line)
            if not (isinstance(fld, tuple) and fld[0] in HOLDERS): return
            k = (st.fn, st.line, fld[1]); seen[k] = seen.get(k, 0) + 1
            if null:
                if sum(1 for h in hits if h[0] == k) < 20: hits.append((k, st.fork(), y, fld[1]))
            else: counts[k] = counts.get(k, 0) + 1
            if fld[0] == "rmc_connection_vector" or fld[1].startswith("payload_"): return
            o = ORIGIN.get(y)
            if o is None or not args: return
            b = keybase(o[0])
            if b is None or PTYPE.get(b) != fld[0]: return
            if not st.entails(EQ(args[0].e, S(b))): who.append((k, st.fork(), b, args[0].e))
            else: okctx[0] += 1
        return f
    who = []; okctx = [0]
    def hook(ip): ip.on_callback = on(ip)
    def notes(f, ip, fn, outs):
        for (q, line, _), st, y, nm in hits: chk.ob(R + ".set", st, NE(S(y), 0), fn=q, line=line, what="%s is called although it may not be set" % nm, key="set-" + nm)
        for (q, line, nm), st, b, a in who: chk.ob(R + ".context", st, EQ(a, S(b)), fn=q, line=line, what="%s is not given the context it belongs to" % nm, key="context-" + nm)
        hits.clear(); who.clear()
        for k, s, x in outs:
            if k == "fault" and "null function" in str(x): chk.fact(R + ".set", s, False, fn=s.fn, line=s.line, what="a callback that is not set is called (%s)" % fn, key="null")
    from rules.conns import Host
    Host.free = True
    follow(chk, hook, notes, DRIVERS)
    for k, n in counts.items(): chk.obls[R + ".set"] = chk.obls.get(R + ".set", 0) + n; chk.proved += n
    chk.obls[R + ".context"] = chk.obls.get(R + ".context", 0) + okctx[0]; chk.proved += okctx[0]
    chk.notes.append("calls through a callback member that were followed: " + ", ".join("%s (%s:%s, %d)" % (k[2], k[0], k[1], n) for k, n in sorted(seen.items(), key=str)))
    for m in sorted(set((h, f["name"]) for h in HOLDERS for f in M.structs[h]["members"] if f["kind"] == "fptr")):
        if not any(k[2] == m[1] for k in seen): chk.unsure(R + ".set", m[0], "calls through %s" % m[1], "no call through it was followed")
    chk.fact(R + ".present", State(), len(seen) > 10, fn="rmc_sub_read", what="hardly any callback could be followed", key="present")

# ------------------------------------------------------------------------------------------------ M03
def M03(chk):
    R = "M03"; M = chk.M; hits = {}; cnt = [0, 0]; where = set()
    chk.assume += [ASSUME_CB, ASSUME_RING, "what the other rules assume about the state a call starts in"]
    def hook(ip):
        def f(st, ys):
            cnt[0] += 1; where.add((st.fn, st.line))
            for y in ys:
                h = hits.setdefault((st.fn, st.line, re.sub(r"[%#'].*", "", SYMS[y].name)), [])
                if len(h) < 20: h.append(st.fork())
        ip.on_undef = f
    def notes(f, ip, fn, outs):
        for (q, line, nm), sts in hits.items():
            for st in sts: chk.fact(R + ".decision", st, False, fn=q, line=line, what="a decision depends on a value that was never written (%s)" % nm, key="decision-" + nm)
        hits.clear()
        for k, s, x in outs:
            for e in s.events():
                if e.kind not in ("sys", "cb") : continue
                cnt[1] += 1
                if e.kind == "sys" and e.name in FILLED:
                    for q, c in evals(s, lambda z: capacity(ip, z, e)):
                        if c and any(SYMS[y].taint in ("uninitialised", "undef operand") for y in c[1].syms()): chk.fact(R + ".handed-out", q, False, fn=e.fn, line=e.line, what="%s is given a length that was never written" % e.name, key="handed-out-%s-len" % e.name)
                for i, a in enumerate(e.args):
                    if isinstance(a, V) and a.cond is None and any(SYMS[y].taint in ("uninitialised", "undef operand") for y in s.norm(a.e).syms()):
                        chk.fact(R + ".handed-out", s, False, fn=e.fn, line=e.line, what="%s is given a value that was never written" % e.name, key="handed-out-%s-%d" % (e.name, i))
            if k == "ret" and x is not None and x.cond is None and any(SYMS[y].taint in ("uninitialised", "undef operand") for y in s.norm(x.e).syms()):
                chk.fact(R + ".returned", s, False, fn=fn, what="%s returns a value that was never written" % fn, key="returned")
    follow(chk, hook, notes, DRIVERS)
    chk.obls[R + ".decision"] = chk.obls.get(R + ".decision", 0) + cnt[0]; chk.obls[R + ".handed-out"] = chk.obls.get(R + ".handed-out", 0) + cnt[1]; chk.proved += sum(cnt)
    chk.notes.append("%d decisions at %d places and %d system calls and callbacks depend on written values only" % (cnt[0], len(where), cnt[1]))
    chk.fact(R + ".present", State(), len(where) > 50, fn="rmc_sub_read", what="hardly any decision could be followed", key="present")

# ------------------------------------------------------------------------------------------------ M04
PORTS = ("mcast_port", "control_listen_port", "multicast_port")
OPAQUE_DATA = re.compile(r"user_data|\bud_|^ud|argument of")
def M04(chk):
    R = "M04"; M = chk.M; hits = {}; cnt = [0, 0]; where = set(); wide = [0]
    chk.assume += [ASSUME_CB, ASSUME_RING, "ports given to the library lie between 0 and 65535", "an application's user data is its own business", "what the other rules assume about the state a call starts in"]
    def free(st, e):
        """the application's own values, and ports"""
        for y in e.syms():
            nm = SYMS[y].name; f = SYMS[y].field; fld = f[1] if isinstance(f, tuple) else ""
            if OPAQUE_DATA.search(nm) or OPAQUE_DATA.search(str(fld)) or any(q in nm for q in PORTS) or fld in PORTS: return True
        return False
    def hook(ip):
        def f(st, a, tb):
            if isinstance(tb, str):
                e = st.norm(a.e); lo, hi = st.facts.range(e); wide[0] += 1; b = a.bits
                l, h = (-(1 << b - 1), (1 << b - 1) - 1) if tb == "sext" else (0, (1 << b) - 1)
                if lo is not None and hi is not None and lo >= l and hi <= h or st.entails(GE(e, l)) and st.entails(LE(e, h)): return
                if free(st, e): cnt[1] += 1; return
                v = hits.setdefault((st.fn, st.line, tb), [])
                if len(v) < 20: v.append((st.fork(), e, (l, h)))
                return
            if a.cond is not None or a.rep == "m": return
            e = st.norm(a.e); cnt[0] += 1; where.add((st.fn, st.line))
            lo, hi = st.facts.range(e)
            if lo is not None and hi is not None and (lo >= 0 and hi < 1 << tb or lo >= -(1 << tb - 1) and hi < 1 << tb - 1): return
            if a.rep == "u" and st.entails(GE(e, 0)) and st.entails(LT(e, 1 << tb)): return
            if st.entails(GE(e, -(1 << tb - 1))) and st.entails(LT(e, 1 << tb - 1)): return
            if free(st, e) or any(k % (1 << tb) == 0 for _, k in e.t): cnt[1] += 1; return     # the low part was asked for
            h = hits.setdefault((st.fn, st.line, tb), [])
            if len(h) < 20: h.append((st.fork(), e, a.rep))
        ip.on_cut = f
    def notes(f, ip, fn, outs):
        for (q, line, tb), v in hits.items():
            for st, e, rep in v:
                if isinstance(tb, str):
                    chk.ob(R + ".sign", st, [GE(e, rep[0]), LE(e, rep[1])], fn=q, line=line, what="a value is read back with another sign or from fewer bits than it has", key="sign-" + tb); continue
                # values that fit neither as a signed nor as an unsigned number
                for s, neg_ in splits(st, LT(e, 0)):
                    chk.ob(R + ".whole", s, GE(e, -(1 << tb - 1)) if neg_ else LT(e, 1 << tb), fn=q, line=line, what="a value is cut to %d bits" % tb, key="whole-%d" % tb)
        hits.clear()
    follow(chk, hook, notes, DRIVERS)
    chk.obls[R + ".whole"] = chk.obls.get(R + ".whole", 0) + cnt[0]; chk.proved += cnt[0] + wide[0]
    chk.obls[R + ".sign"] = chk.obls.get(R + ".sign", 0) + wide[0]
    chk.notes.append("%d conversions at %d places keep the value whole; %d concern ports or the application's user data" % (cnt[0], len(where), cnt[1]))
    chk.fact(R + ".present", State(), cnt[0] > 20, fn="rmc_sub_read", what="hardly any conversion could be followed", key="present")

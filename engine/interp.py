"""Path-partitioned abstract interpreter over the LLVM IR of the library.

Abstract state = (symbolic memory cells with lazily named initial contents) x (linear-constraint
facts) x (typestate event trace).  Nothing is executed: branches are followed under both outcomes
unless the constraint domain excludes one, loops are summarised by a fixpoint over a havocked header
state (never unrolled), callees are analysed in context, library containers used by client code are
abstracted by transfer functions (models.py) whose soundness the C0x/L0x checks establish separately.
"""
import time
import sys, re
from lin import *
import lin
sys.setrecursionlimit(20000)

NEST = [0]          # > 0 while a Split is taken by somebody
SPLITTER = None
class Split(Exception):
    def __init__(s, cases): s.cases = cases          # list of lists of constraints
class Dead(Exception): pass
class Budget(Exception): pass
class Deadline(BaseException): pass
DEADLINE = None
class Fault(Exception):
    def __init__(s, what): s.what = what

PTYPE = {}      # base symbol -> pointee struct name
OWNER = {}      # list node symbol -> Lin address of the owning list at first sight
OEPOCH = {}     # symbol -> epoch of that cell
ORIGIN = {}     # symbol -> (key, off) of the initial cell it names
DEBUG_LOOP = False
KIND_BASE = ("base", "ptr", "alloca", "heap", "global")
FUN = {}        # function name -> symbol
FUNNAME = {}
GLOB = {}
REG = {}        # (key, off, size, epoch) -> V
MEMO = {}       # uninterpreted function applications

def ubits(n): return (0, (1 << n) - 1)
def sbits(n): return (-(1 << (n - 1)), (1 << (n - 1)) - 1)

class V:
    __slots__ = ("bits", "e", "rep", "cond")
    def __init__(s, bits, e, rep="u", cond=None):
        s.bits = bits; s.e = e; s.rep = rep; s.cond = cond
    def __repr__(s):
        if s.cond is not None: return "[%s]" % con_repr(s.cond)
        return "%r" % (s.e,)
def VC(bits, c):
    c &= (1 << bits) - 1
    return V(bits, C(c), "u")
NULL = V(64, C(0), "u")

DECLARED = set()                 # pointers whose type comes from a declaration, not from how they are used
def ptr_sym(name, nullable=True, ty=None, kind="ptr", owner=None):
    s = new_sym(name, 0 if nullable else 1 << 20, 1 << 47, kind)
    if ty: PTYPE[s] = ty; DECLARED.add(s)
    return s
def fun_sym(name):
    if name not in FUN:
        s = new_sym("&" + name, 1 << 20, 1 << 47, "func")
        FUN[name] = s; FUNNAME[s] = name
    return FUN[name]
def glob_sym(name):
    if name not in GLOB:
        GLOB[name] = new_sym("@" + name, 1 << 20, 1 << 47, "global")
    return GLOB[name]

class Obj:
    __slots__ = ("cells", "regions")
    def __init__(s): s.cells = {}; s.regions = ()
    def copy(s):
        o = Obj(); o.cells = dict(s.cells); o.regions = s.regions
        return o
class Hav:
    __slots__ = ("n",)
    def __init__(s, n): s.n = n

class Ev:
    __slots__ = ("kind", "name", "args", "ret", "line", "fn", "mem", "ghost", "x", "nraw")
    def __repr__(s):
        return "%s:%s(%s)@%s" % (s.kind, s.name, ", ".join(repr(a) for a in s.args), s.line)

class State:
    __slots__ = ("env", "mem", "own", "ghost", "facts", "trace", "freed", "line", "file", "taint", "fn", "depth", "now", "uninit", "peel", "unr")
    def __init__(s):
        s.env = {}; s.mem = {}; s.own = set(); s.ghost = {}; s.facts = Facts(); s.trace = None
        s.freed = frozenset(); s.line = 0; s.file = ""; s.taint = (); s.fn = ""; s.depth = 0; s.now = None; s.uninit = (); s.peel = None; s.unr = {}
    def fork(s):
        t = State.__new__(State)
        t.env = dict(s.env); t.mem = dict(s.mem); s.own = set(); t.own = set(); t.ghost = dict(s.ghost)
        t.facts = s.facts.copy(); t.trace = s.trace; t.freed = s.freed; t.line = s.line; t.file = s.file
        t.taint = s.taint; t.fn = s.fn; t.depth = s.depth; t.now = s.now; t.uninit = s.uninit; t.peel = s.peel; t.unr = s.unr
        return t
    # ---- facts
    def assume(s, con):
        n = len(s.facts.sub)
        if not s.facts.assume(con, (s.fn, s.line)): raise Dead()
        if len(s.facts.sub) != n: s.rekey()
    def define(s, con):
        """a fact that introduces names only (it says nothing about the path taken)"""
        n = len(s.facts.sub)
        if not s.facts.assume(con, None): raise Dead()
        if len(s.facts.sub) != n: s.rekey()
    def try_assume(s, cons):
        """False when contradictory"""
        try:
            for c in cons:
                if s.facts.entails(neg(c)): return False
                s.assume(c)
        except Dead:
            return False
        return not s.facts.bad
    def entails(s, con): return s.facts.entails(con)
    def norm(s, e): return s.facts.norm(e)
    def truth(s, con):
        if s.facts.entails(con): return True
        if s.facts.entails(neg(con)): return False
        return None
    def rekey(s):
        sub = s.facts.sub
        for k in list(s.mem):
            if any(x in sub for x, _ in k):
                n = s.facts.norm(Lin(0, k))
                o = s.mem.pop(k)
                tgt = s.mem.get(n.t)
                new = tgt.copy() if tgt else Obj()
                for off, (size, v, w) in o.cells.items():
                    old = new.cells.get(off + n.c)
                    if old is None: new.cells[off + n.c] = (size, v, w)
                    else:
                        if w and not old[2]: new.cells[off + n.c] = (size, v, w)
                        elif not w and not old[2] and old[0] == size and isinstance(v, V) and isinstance(old[1], V) and v.rep == old[1].rep:
                            s.facts.assume(EQ(v.e, old[1].e), (s.fn, s.line))
                            if s.facts.bad: raise Dead()
                if o.regions:
                    new.regions = tuple((a + n.c, l, src, snap) for a, l, src, snap in o.regions) + new.regions
                s.mem[n.t] = new; s.own.add(n.t)
        if s.ghost:
            for k in list(s.ghost):
                if any(x in sub for x, _ in k[0].t):
                    v = s.ghost.pop(k)
                    s.ghost[(s.facts.norm(k[0]),) + k[1:]] = v
    # ---- events
    def event(s, kind, name, args=(), ret=None, x=None):
        e = Ev(); e.kind = kind; e.name = name; e.args = tuple(args); e.ret = ret; e.line = s.line; e.fn = s.fn
        e.mem = dict(s.mem); s.own = set(); e.ghost = dict(s.ghost); e.x = x; e.nraw = len(s.facts.raw)
        s.trace = (s.trace, e)
        return e
    def events(s):
        out = []; t = s.trace
        while t: out.append(t[1]); t = t[0]
        out.reverse()
        return out

def keybase(key):
    """pointer-like symbol of an address key"""
    for sy, k in key:
        if k == 1 and SYMS[sy].kind in ("ptr", "base", "alloca", "heap", "global"): return sy
    return None

_ctr = [0]
def uniq():
    _ctr[0] += 1
    return _ctr[0]

def quiet(tr, base):
    """nothing but calls of analysed functions happened since"""
    while tr is not base:
        if tr is None or tr[1].kind != "call": return False
        tr = tr[0]
    return True
def derives(sy, roots, seen=None):
    if sy in roots: return True
    o = ORIGIN.get(sy)
    if o is None: return False
    if seen is None: seen = set()
    if sy in seen: return False
    seen.add(sy)
    return any(derives(x, roots, seen) for x, _ in o[0])

class Loop: pass

class Interp:
    def __init__(self, M, models=None, opaque=None, budget=60000, field_inv=None, inline_lists=False):
        self.M = M; self.models = models or {}; self.opaque = opaque or {}
        self.budget = budget; self.steps = 0; self.nstates = 0; self.maxsteps = 400000
        self.field_inv = field_inv or {}
        self.analysed = set(); self.calls = 0; self.nloops = 0
        self.callback_hook = None
        self.access = None               # f(state, address, size Lin, what): told about every access
        self.on_undef = None             # f(state, symbols): a decision is taken on values, of which nobody wrote these
        self.on_cut = None               # f(state, value, bits|"zext"|"sext"): a value is put into fewer or more bits
        self.reenter = {}                # callback name -> f(interp, state, instruction, args, result): outcomes of an application that uses the library from that callback
        self.on_callback = None          # f(state, symbol, args, may be null): told about every call through a function pointer
        self.strict_init = True
        self.rotate = False
        self.fewmemo = {}
        self.runaway = []; self.unroll = False; self.maxunroll = 12      # follow loops iteration by iteration (explicit small shapes)
        self.loops = []
        self.loglevel = -1               # the logging threshold; None: any
    # ------------------------------------------------------------ values
    def new_val(self, name, bits, signed=False, taint=None):
        lo, hi = sbits(bits) if signed else ubits(bits)
        return V(bits, S(new_sym(name, lo, hi, "val", taint)), "s" if signed else "u")
    def unk(self, name, bits, why):
        return self.new_val(name, bits, False, why)
    def ev(self, st, o):
        k = o["k"]
        if k == "v":
            v = st.env.get(o["id"])
            if v is None: return self.unk("undef", 64, "undefined value")
            return v
        if k == "a": return st.env[("a", o["i"])]
        if k == "i":
            b = o["b"]; c = int(o["v"])
            if b == 1: return V(1, C(c & 1), "u")
            return VC(b, c)
        if k == "n": return NULL
        if k == "f": return V(64, S(fun_sym(o["n"])), "u")
        if k == "g": return V(64, S(glob_sym(o["n"])), "u")
        if k == "gep":
            b = self.ev(st, o["base"])
            return V(64, b.e + o["off"], "u")
        if k == "zero": return VC(64, 0)
        return self.unk("undef", 64, "undef operand")
    def view(self, st, v, view):
        """Lin equal to v read as unsigned ('u') / signed ('s') integer; may raise Split (only where
        somebody takes it: while interpreting and under evals; a rule that reads a value on its own
        has its state split by SPLITTER, which follows the cases in processes of their own)"""
        if NEST[0] or SPLITTER is None: return self._view(st, v, view)
        while True:
            keep = st.fork()
            try: return self._view(st, v, view)
            except Split as sp: SPLITTER(st, keep, sp)
    def _view(self, st, v, view):
        N = v.bits
        if v.cond is not None:
            raise Split([[v.cond], [neg(v.cond)]]) if st.truth(v.cond) is None else _Const(1 if st.truth(v.cond) else 0, view)
        lo, hi = ubits(N) if view == "u" else sbits(N)
        if v.rep == view: return v.e
        e = v.e
        if not e.t:
            c = e.c & ((1 << N) - 1)
            if view == "s" and c >> (N - 1): c -= 1 << N
            return C(c)
        e = st.norm(e)
        l, h = st.facts.range(e)
        W = 1 << N
        if l is not None and h is not None and l >= lo and h <= hi: return e
        if v.rep == "m" and any(cf % W == 0 for _, cf in e.t):      # multiples of the modulus vanish
            r = C(e.c)
            for sy, cf in e.t:
                if cf % W: r = r + S(sy) * cf
            return self._view(st, V(N, r, "m"), view)
        if v.rep == "u" and view == "s": ks = [0, 1]
        elif v.rep == "s" and view == "u": ks = [0, -1]
        else:
            if l is None or h is None: ks = None
            else:
                k0 = (l - lo) // W; k1 = (h - lo) // W
                ks = list(range(k0, k1 + 1)) if k1 - k0 <= 3 else None
        if ks is None:
            kk = ("wrap", e, N, view)
            if kk not in MEMO:
                r = new_sym("w%d" % uniq(), lo, hi); q = new_sym("k%d" % uniq(), None, None)
                MEMO[kk] = (r, q)
            r, q = MEMO[kk]
            con = EQ(e, S(r) + S(q) * W)
            if not st.entails(con): st.assume(con)
            return S(r)
        live = []
        for k in ks:
            cs = [GE(e, lo + k * W), LE(e, hi + k * W)]
            ok = not st.entails(neg(cs[0])) and not st.entails(neg(cs[1]))
            if ok: live.append((k, cs))
        if not live: raise Dead()
        if len(live) == 1:
            for c in live[0][1]:
                if not st.entails(c): st.assume(c)
            return e - live[0][0] * W
        live.sort(key=lambda x: abs(x[0]))
        raise Split([cs for _, cs in live])
    def as_cond(self, st, v):
        if v.cond is not None: return v.cond
        if not v.e.t: return ("eq", C(0)) if v.e.c & 1 else ("eq", C(1))
        return NE(v.e, 0)
    # ------------------------------------------------------------ naming
    def typed(self, key, off):
        """(base sym, struct, in-struct offset, element Lin)"""
        b = keybase(key)
        if b is None: return None
        T = PTYPE.get(b)
        if T is None: return (b, None, off, None)
        sz = self.M.size(T)
        if not sz: return (b, None, off, None)
        rest = Lin(0, tuple(x for x in key if x[0] != b))
        if any(k % sz for _, k in rest.t): return (b, None, off, None)
        idx = Lin(off // sz, tuple((s_, k // sz) for s_, k in rest.t))
        return (b, T, off % sz, idx)
    def place(self, key, off):
        """printable name, struct, field, element index"""
        t = self.typed(key, off)
        if t is None: return ("mem[%r+%d]" % (Lin(0, key), off), None, None, None)
        b, T, o, idx = t
        bn = SYMS[b].name
        if T is None: return ("%s+%d" % (bn, off) if key == ((b, 1),) else "(%r)" % (Lin(off, key),), None, None, None)
        r = self.M.resolve(T, o)
        pre = bn if idx.is_const() and idx.c == 0 else "%s[%r]" % (bn, idx)
        if r is None: return ("%s+%d" % (pre, o), T, None, idx)
        return ("%s.%s" % (pre, r[0]) + ("+%d" % r[3] if r[3] else ""), T, r, idx)
    # ------------------------------------------------------------ memory
    def chk_addr(self, st, e):
        given = e; e = st.norm(e)
        if not e.t:
            raise Fault(("null dereference" if given.t else "null dereference of nothing") if 0 <= e.c < 4096 * 64 else "wild dereference")
        b = keybase(e.t)
        if b is not None:
            if b in st.freed:
                st.event("uaf", SYMS[b].name, (V(64, e),))
            lo, _ = st.facts.bounds(b)
            if lo is not None and lo < 1 and len(e.t) == 1 and not st.entails(GE(S(b), 1)):
                st.event("maybe_null", SYMS[b].name, (V(64, e),))
                st.assume(GE(S(b), 1 << 20))
        return e
    def alias(self, st, key, off, size, write):
        b = keybase(key)
        if b is None: return
        for K in list(st.mem):
            if K == key or not any(s_ == b and k == 1 for s_, k in K): continue
            diff = Lin(0, key) - Lin(0, K)
            g = 0
            for _, k in diff.t: g = lin.gcd(g, k)
            if g == 0: continue
            cand = set()
            for o, (sz, v, w) in st.mem[K].cells.items():
                if not (w or write): continue
                lo = o - off - size + 1; hi = o - off + sz - 1       # diff in [lo,hi] => overlap
                m = -(-lo // g) * g
                n = 0
                while m <= hi and n < 3:
                    cand.add(m); m += g; n += 1
            for m in cand:
                c = EQ(diff, m)
                t = st.truth(c)
                if t is None: raise Split([[neg(c)], [c]])
    def load(self, st, pe, size, signed=None, mem=None, peek=False, hint=None):
        e = self.chk_addr(st, pe) if not peek else st.norm(pe)
        if not e.t: return self.unk("null", size * 8, "null peek")
        if self.access and not peek: self.access(st, e, C(size), "read")
        key, off = e.t, e.c
        m = st.mem if mem is None else mem
        if not peek and mem is None: self.alias(st, key, off, size, False)
        o = m.get(key)
        if o is None and mem is not None:      # snapshot keys may predate substitutions
            for K, oo in mem.items():
                nk = st.norm(Lin(0, K))
                if nk.t == key:
                    o = oo; off2 = off - nk.c
                    if nk.c: return self.load(st, Lin(off2, K), size, signed, {**mem, K: oo}, True, hint) if K == key else self._cell(st, oo, K, off2, size, mem, signed, hint)
                    break
        return self._cell(st, o, key, off, size, mem, signed, hint, peek)
    def _cell(self, st, o, key, off, size, mem, signed, hint, peek=False):
        epoch = 0
        if o is not None:
            c = o.cells.get(off)
            if c is not None:
                sz, v, w = c
                if isinstance(v, Hav):
                    if sz == size or True:
                        epoch = v.n
                elif sz == size: return v
                elif sz > size: return V(size * 8, v.e, "m") if v.cond is None else v
                else:
                    nm = self.place(key, off)[0]
                    # wider read than the stored cell: low part known
                    kk = ("wide", key, off, size, v.e, sz)
                    if kk not in MEMO: MEMO[kk] = new_sym(nm + ".hi", 0, (1 << (8 * (size - sz))) - 1, "val", "partly initialised")
                    try: low = self.view(st, v, "u")
                    except Split:
                        if peek: return self.unk("peek", size * 8, "peek")
                        raise
                    return V(size * 8, low + S(MEMO[kk]) * (1 << (8 * sz)), "u")
            if not epoch:
                for o2, (sz, v, w) in o.cells.items():
                    if isinstance(v, Hav): 
                        continue
                    if o2 < off + size and off < o2 + sz:
                        if not w: continue
                        if o2 <= off and off + size <= o2 + sz:
                            kk = ("part", v.e, off - o2, size)
                            if kk not in MEMO: MEMO[kk] = new_sym("part%d" % uniq(), 0, (1 << (8 * size)) - 1, "val", "part of a wider value")
                            return V(size * 8, S(MEMO[kk]), "u")
                        return self.unk("mix", size * 8, "overlapping writes")
                for a, ln, src, snap in o.regions:
                    rel = off - a
                    inside = rel >= 0 and st.entails(GE(ln, rel + size))
                    if inside:
                        if src is None: return self.unk("filled", size * 8, "bulk write")
                        if src[0] == "const": return VC(size * 8, sum(src[1] << (8 * i) for i in range(size)))
                        if src[0] == "mem":
                            v = self.load(st, src[1] + rel, size, signed, snap, True, hint)
                            return v
                        if src[0] == "app":
                            return self.app_val(src[1], rel, size, signed, hint)
                    elif rel + size > 0 and not st.entails(LE(ln, rel)):
                        return self.unk("bulk?", size * 8, "may be inside a bulk write")
        v = self.initial(st, key, off, size, signed, epoch, hint, peek)
        if mem is None and not peek:
            ob = self.wobj(st, key)
            old = ob.cells.get(off)
            ob.cells[off] = (size, v, bool(old and old[2]))
        return v
    def app_val(self, tag, rel, size, signed, hint):
        kk = ("app", tag, rel, size)
        if kk not in MEMO:
            MEMO[kk] = new_sym("%s[%d..%d]" % (tag[0], rel, rel + size), 0, (1 << (8 * size)) - 1)
        return V(size * 8, S(MEMO[kk]), "u")
    def wobj(self, st, key):
        o = st.mem.get(key)
        if o is None:
            o = Obj(); st.mem[key] = o; st.own.add(key)
        elif key not in st.own:
            o = o.copy(); st.mem[key] = o; st.own.add(key)
        return o
    def initial(self, st, key, off, size, signed, epoch, hint, peek=False):
        b = keybase(key)
        kind = SYMS[b].kind if b is not None else None
        k = (key, off, size, epoch)
        if kind == "global":
            g = self.M.globals.get(SYMS[b].name[1:])
            if SYMS[b].name == "@_rmc_log_level" and self.loglevel is not None: return VC(32, self.loglevel)
            if g is not None and key == ((b, 1),) and not g.get("written"):
                for o, s_, opnd in g["init"]:
                    if o == off and s_ == size:
                        return self.ev(st, opnd)
                if g["init"] or g.get("internal"):
                    if 0 <= off and off + size <= g["size"] and "str" not in g: return VC(size * 8, 0)
        if kind == "global" and len(key) == 2 and not peek:
            # an entry of a small constant table: one case per entry
            g = self.M.globals.get(SYMS[b].name[1:], {})
            x = [s_ for s_, _ in key if s_ != b]
            if g.get("init") and not g.get("written") and len(x) == 1:
                cs = [[EQ(S(x[0]), i)] for i in self.small_range(st, S(x[0]))]
                if len(cs) > 1: raise Split(cs)
        if k in REG:
            v = REG[k]
        else:
            if epoch == 0 and kind in ("alloca", "heap") and self.strict_init:
                st.uninit = st.uninit + ((self.place(key, off)[0], st.fn, st.line),)
                return self.unk("uninit(%s)" % self.place(key, off)[0], size * 8, "uninitialised")
            v = self._mk_initial(st, key, off, size, signed, epoch, hint)
            REG[k] = v
        if not peek: self._shape(st, key, off, size, epoch, v)
        return v
    def small_range(self, st, e, most=64):
        lo, hi = st.facts.range(st.norm(e))
        return range(lo, hi + 1) if lo is not None and hi is not None and hi - lo < most else ()
    def _mk_initial(self, st, key, off, size, signed, epoch, hint):
        nm, T, r, idx = self.place(key, off)
        if epoch: nm += "'%d" % epoch
        kind = "u"; sname = ""
        if r is not None and r[3] == 0 and r[1]["size"] == size:
            kind = r[1]["kind"]; sname = r[1]["sname"]
        elif signed: kind = "s"
        if hint == "p" and kind not in ("ptr", "fptr"): kind = "ptr"; sname = ""
        inv = self.field_inv.get((r[2], r[1]["name"])) if r is not None else None
        bits = size * 8
        if kind == "fptr":
            s_ = new_sym(nm, 0, 1 << 47, "fptr", None, (r[2], r[1]["name"])); v = V(64, S(s_), "u")
        elif kind == "ptr":
            s_ = ptr_sym(nm, True, sname if sname in self.M.structs else None)
            if keybase(key) is not None and SYMS[keybase(key)].kind in ("alloca", "ptr") and keybase(key) not in DECLARED: DECLARED.discard(s_)     # linking merges types of the same shape
            v = V(64, S(s_), "u")
            self._list_links(st, key, off, r, s_, sname)
            if s_ in MEMO: v = MEMO.pop(s_)
        elif inv and inv.get("value"):
            v0 = inv["value"](self, key, off, idx)
            if v0 is not None: return v0
            s_ = new_sym(nm, *ubits(bits)); v = V(bits, S(s_), "u")
        else:
            lo, hi = sbits(bits) if kind == "s" else ubits(bits)
            s_ = new_sym(nm, lo, hi, "val", None, (r[2], r[1]["name"]) if r else None)
            v = V(bits, S(s_), "s" if kind == "s" else "u")
        kb = keybase(key)
        if kb is not None and SYMS[kb].kind == "global" and len(key) > 1 and self.M.globals.get(SYMS[kb].name[1:], {}).get("init"): SYMS[s_].taint = SYMS[s_].taint or "entry of a constant table at an index that is not followed"
        if v.e.t: ORIGIN[v.e.t[0][0]] = (key, off); OEPOCH[v.e.t[0][0]] = epoch
        if inv and "lo" in inv: SYMS[s_].lo = max(SYMS[s_].lo, inv["lo"])
        if inv and "hi" in inv: SYMS[s_].hi = min(SYMS[s_].hi, inv["hi"])
        if inv and inv.get("nonnull"): SYMS[s_].lo = 1 << 20
        return v
    # -- list shapes
    def list_struct(self, T):
        S_ = self.M.structs.get(T)
        if not S_: return False
        n = [m["name"] for m in S_["members"]]
        return "head" in n and "tail" in n and "elem_count" in n
    def node_struct(self, T):
        S_ = self.M.structs.get(T)
        if not S_: return False
        n = [m["name"] for m in S_["members"]]
        return "next" in n and "prev" in n and "owner" in n and "data" in n
    def _list_links(self, st, key, off, r, s_, sname):
        if r is None: return
        T, f = r[2], r[1]["name"]
        if self.list_struct(T) and f in ("head", "tail"):
            OWNER[s_] = Lin(off - r[1]["off"], key)
        elif self.node_struct(T) and f in ("next", "prev"):
            b = keybase(key)
            if key == ((b, 1),) and b in OWNER: OWNER[s_] = OWNER[b]
            other = "prev" if f == "next" else "next"
            oo = self.M.member(T, other)[0]
            REG.setdefault((((s_, 1),), oo, 8, 0), V(64, Lin(0, key), "u"))
        elif self.node_struct(T) and f == "owner":
            b = keybase(key)
            if key == ((b, 1),) and b in OWNER: MEMO[s_] = V(64, OWNER[b], "u")
    def _shape(self, st, key, off, size, epoch, v):
        """consistency of head/tail/elem_count when one of them is first looked at"""
        t = self.typed(key, off)
        if not t or not t[1]: return
        r = self.M.resolve(t[1], t[2])
        if not r or not self.list_struct(r[2]) or r[1]["name"] not in ("head", "tail", "elem_count"): return
        if getattr(self, "raw_lists", False): return
        base = off - r[1]["off"]
        vs = {}
        for m in self.M.structs[r[2]]["members"]:
            if m["name"] in ("head", "tail", "elem_count"):
                o = base + m["off"]
                cell = st.mem[key].cells.get(o) if key in st.mem else None
                if cell is not None and not isinstance(cell[1], Hav) and m["name"] != r[1]["name"]: return
                ep = cell[1].n if cell is not None and isinstance(cell[1], Hav) else epoch
                if ep != epoch: return
                k = (key, o, m["size"], epoch)
                if k not in REG: REG[k] = self._mk_initial(st, key, o, m["size"], None, epoch, None)
                vs[m["name"]] = REG[k].e
        h, tl, c = vs["head"], vs["tail"], vs["elem_count"]
        if st.entails(EQ(c, 0)) or st.entails(EQ(h, 0)) or st.entails(EQ(tl, 0)):
            for con in (EQ(h, 0), EQ(tl, 0), EQ(c, 0)):
                if not st.entails(con): st.assume(con)
            return
        if st.entails(GE(c, 1)) or st.entails(NE(h, 0)) or st.entails(NE(tl, 0)):
            for con in (GE(h, 1 << 20), GE(tl, 1 << 20), GE(c, 1)):
                if not st.entails(con): st.assume(con)
            return
        raise Split([[GE(h, 1 << 20), GE(tl, 1 << 20), GE(c, 1)], [EQ(h, 0), EQ(tl, 0), EQ(c, 0)]])
    # -- stores
    def store(self, st, pe, v, size, raw=False):
        e = self.chk_addr(st, pe)
        if self.access and not raw: self.access(st, e, C(size), "written")
        key, off = e.t, e.c
        if not raw: self.alias(st, key, off, size, True)
        o = self.wobj(st, key)
        for o2, c in list(o.cells.items()):
            if o2 != off and o2 < off + size and off < o2 + c[0]:
                if c[2] and isinstance(c[1], V) and o2 >= off and o2 + c[0] <= off + size: del o.cells[o2]; continue
                if o2 >= off and o2 + c[0] <= off + size: del o.cells[o2]; continue
                o.cells[o2] = (c[0], self.unk("clobbered", c[0] * 8, "partial overwrite"), True)
        c = o.cells.get(off)
        if c is not None and c[0] > size:
            o.cells[off] = (c[0], self.unk("clobbered", c[0] * 8, "partial overwrite"), True)
            kk = o.cells.pop(off)
            o.cells[off] = (size, v, True)
            return
        o.cells[off] = (size, v, True)
    def region(self, st, pe, ln, src, snap=None):
        """bulk write of ln bytes at pe"""
        e = self.chk_addr(st, pe)
        if self.access: self.access(st, e, ln, "written")
        key, off = e.t, e.c
        o = self.wobj(st, key)
        for o2, c in list(o.cells.items()):
            rel = o2 - off
            if rel + c[0] <= 0: continue
            if rel >= 0 and st.entails(GE(ln, rel + c[0])): del o.cells[o2]
            elif st.entails(LE(ln, rel)): continue
            else: o.cells[o2] = (c[0], self.unk("clobbered", c[0] * 8, "bulk overwrite"), True)
        o.regions = ((off, ln, src, snap),) + o.regions
    # ------------------------------------------------------------ instructions
    def step(self, st, I):
        op = I["op"]
        env = st.env
        if op == "load":
            p = self.ev(st, I["p"])
            v = self.load(st, p.e, I["size"], None, hint=I["ty"])
            if I["ty"] == "i1": v = V(1, v.e, v.rep, v.cond)
            env[I["id"]] = v
        elif op == "store":
            p = self.ev(st, I["p"]); v = self.ev(st, I["v"])
            if I["vt"] == "agg":
                self.region(st, p.e, C(I["size"]), ("const", 0) if I["v"]["k"] == "zero" else None)
                return
            if v.cond is not None: v = V(8, self.view(st, v, "u"), "u")
            self.store(st, p.e, v, I["size"])
            b = keybase(st.norm(p.e).t)
            if b is not None and (SYMS[b].kind not in ("alloca",) or (SYMS[b].note == "track")):
                st.event("store", None, (p, v), x=I["size"])
        elif op == "gep":
            b = self.ev(st, I["base"])
            e = b.e + I["off"]
            for o, sc in I["idx"]:
                iv = self.ev(st, o)
                e = e + self.view(st, iv, "s") * sc
            src = I.get("src")
            if src and b.e.t:
                bs = st.norm(b.e)
                kb = keybase(bs.t)
                if kb is not None and kb not in PTYPE and bs.c == 0:
                    nm = src.split(".", 1)[1] if "." in src else src
                    nm = re.sub(r"\.\d+$", "", nm)
                    if nm in self.M.structs: PTYPE[kb] = nm
            env[I["id"]] = V(64, e, "u")
        elif op == "alloca":
            n = self.ev(st, I["n"])
            s_ = new_sym("%s" % (I["name"] or "tmp"), 1 << 20, 1 << 47, "alloca")
            aty = I["aty"].split(".", 1)[1] if "." in I["aty"] else I["aty"]
            aty = re.sub(r"\.\d+$", "", aty)
            if aty in self.M.structs: PTYPE[s_] = aty
            try: nn = self.view(st, n, "u")
            except ValueError: nn = C(1)
            SYMS[s_].field = nn * I["size"]
            env[I["id"]] = V(64, S(s_), "u")
        elif op == "icmp":
            a = self.ev(st, I["a"]); b = self.ev(st, I["b"])
            pr = I["pred"]
            vw = "s" if pr[0] == "s" else "u"
            if a.bits == 1 or b.bits == 1:
                # comparison of booleans
                ca = self.as_cond(st, a); cb = self.as_cond(st, b)
                if not b.e.t and b.cond is None:
                    tv = b.e.c & 1
                    same = ca if tv else neg(ca)
                    env[I["id"]] = V(1, C(0), "u", same if pr == "eq" else neg(same)); return
                tb = st.truth(cb)
                if tb is None: raise Split([[cb], [neg(cb)]])
                same = ca if tb else neg(ca)
                env[I["id"]] = V(1, C(0), "u", same if pr == "eq" else neg(same)); return
            if pr in ("eq", "ne"):
                # choose a common view
                if a.rep == b.rep and a.rep in "us": vw = a.rep
                elif not b.e.t and a.rep in "us": vw = a.rep
                elif not a.e.t and b.rep in "us": vw = b.rep
                else: vw = "u"
            ea = self.view(st, a, vw); eb = self.view(st, b, vw)
            if I["oty"] == "p" and pr in ("eq", "ne"):
                d = self.ptr_distinct(st, ea, eb)
                if d:
                    env[I["id"]] = V(1, C(0 if pr == "eq" else 1), "u"); return
            con = {"eq": EQ, "ne": NE, "ugt": GT, "uge": GE, "ult": LT, "ule": LE, "sgt": GT, "sge": GE, "slt": LT, "sle": LE}[pr](ea, eb)
            env[I["id"]] = V(1, C(0), "u", con)
        elif op == "bin":
            env[I["id"]] = self.binop(st, I)
        elif op == "cast":
            a = self.ev(st, I["a"]); cop = I["cop"]
            tb = int(I["ty"][1:]) if I["ty"][0] == "i" else 64
            if self.on_cut and cop in ("zext", "sext") and a.cond is None: self.on_cut(st, a, cop)
            if cop in ("bitcast", "ptrtoint", "inttoptr"):
                env[I["id"]] = V(tb, a.e, a.rep, a.cond) if tb == a.bits else V(tb, self.view(st, a, "u"), "u")
            elif cop == "trunc":
                if tb == 1:
                    e = self.view(st, a, "u")
                    if not e.t: env[I["id"]] = V(1, C(e.c & 1), "u")
                    else:
                        l, h = st.facts.range(st.norm(e))
                        if h is not None and h <= 1 and l >= 0: env[I["id"]] = V(1, C(0), "u", NE(e, 0))
                        else: env[I["id"]] = V(1, C(0), "u", NE(self.and_const(st, e, 1), 0))
                else:
                    if self.on_cut: self.on_cut(st, a, tb)
                    e = a.e; M_ = 1 << tb
                    if any(k % M_ == 0 for _, k in e.t) or abs(e.c) >= M_:
                        e = Lin(e.c % M_ if abs(e.c) >= M_ else e.c, tuple(x for x in e.t if x[1] % M_))
                    if not e.t: env[I["id"]] = VC(tb, e.c)
                    elif len(e.t) == 1 and e.t[0][1] == 1 and e.c == 0 and a.rep == "u" and SYMS[e.t[0][0]].hi is not None and SYMS[e.t[0][0]].hi < M_ and SYMS[e.t[0][0]].lo >= 0:
                        env[I["id"]] = V(tb, e, "u")
                    else: env[I["id"]] = V(tb, e, "m")
            elif cop == "zext": env[I["id"]] = V(tb, self.view(st, a, "u") , "u") if a.cond is None else self.bool_val(st, a, tb)
            elif cop == "sext": env[I["id"]] = V(tb, self.view(st, a, "s"), "s")
            else: env[I["id"]] = self.unk("cast", tb, "cast " + cop)
        elif op == "select":
            c = self.ev(st, I["c"]); con = self.as_cond(st, c)
            t = st.truth(con)
            if t is None: raise Split([[con], [neg(con)]])
            env[I["id"]] = self.ev(st, I["a"] if t else I["b"])
        elif op == "copy": env[I["id"]] = self.ev(st, I["a"])
        elif op in ("extractvalue", "insertvalue", "other"):
            env[I["id"]] = self.unk(op, 64, op)
        else: raise AssertionError(op)
    def bool_val(self, st, a, bits):
        t = st.truth(a.cond)
        if t is None: raise Split([[a.cond], [neg(a.cond)]])
        return VC(bits, 1 if t else 0)
    def ptr_distinct(self, st, a, b):
        a = st.norm(a); b = st.norm(b)
        if not a.t or not b.t: return False
        ka = keybase(a.t); kb = keybase(b.t)
        fa = [s_ for s_, k in a.t if SYMS[s_].kind in ("func",)]
        fb = [s_ for s_, k in b.t if SYMS[s_].kind in ("func",)]
        if fa and fb: return fa != fb
        if ka is None or kb is None or ka == kb: return False
        solid = ("alloca", "heap", "global")
        return SYMS[ka].kind in solid or SYMS[kb].kind in solid
    def and_const(self, st, e, c):
        """e & c for unsigned e, small number of tested bits"""
        if not e.t: return C(e.c & c)
        e = st.norm(e)
        nb = c.bit_length()
        lo, hi = st.facts.range(e)
        if c == (1 << nb) - 1 and hi is not None and hi <= c and lo is not None and lo >= 0: return e
        if c == (1 << nb) - 1 and nb > 8:
            kk = ("mod", e, nb)
            if kk not in MEMO: MEMO[kk] = (new_sym("lo%d" % uniq(), 0, c), new_sym("hi%d" % uniq(), 0, None))
            r, q = MEMO[kk]
            st.assume(EQ(e, S(r) + S(q) * (c + 1)))
            return S(r)
        bits = self.bits_of(st, e, nb)
        r = C(0)
        for i in range(nb):
            if c >> i & 1: r = r + bits[i] * (1 << i)
        return r
    def bits_of(self, st, e, nb):
        if not e.t: return [C(e.c >> i & 1) for i in range(nb)]
        lo, hi = st.facts.range(e)
        n2 = nb
        if hi is not None and hi >= 0: n2 = max(1, min(nb, hi.bit_length()))
        if n2 > 16: raise ValueError("bits")
        kk = ("bits", e)
        have = MEMO.get(kk, [])
        nm = repr(e) if len(e.t) == 1 else "x%d" % uniq()
        while len(have) < n2: have.append(new_sym("bit%d(%s)" % (len(have), nm), 0, 1))
        MEMO[kk] = have
        h2 = ("bhi", e, n2)
        tot = C(0)
        for i in range(n2): tot = tot + S(have[i]) * (1 << i)
        if hi is None or hi >= (1 << n2):
            if h2 not in MEMO: MEMO[h2] = new_sym("bits%d+(%s)" % (n2, nm), 0, None)
            tot = tot + S(MEMO[h2]) * (1 << n2)
        c = EQ(e, tot)
        if not st.entails(c): st.assume(c)
        return [S(have[i]) if i < n2 else C(0) for i in range(nb)]
    def binop(self, st, I):
        a = self.ev(st, I["a"]); b = self.ev(st, I["b"]); op = I["bop"]
        N = a.bits
        if a.bits == 1 and (a.cond is not None or b.cond is not None or True):
            if op in ("and", "or", "xor"):
                ca = self.as_cond(st, a); cb = self.as_cond(st, b)
                ta = st.truth(ca)
                if ta is None: raise Split([[ca], [neg(ca)]])
                if op == "and": return V(1, C(0), "u", cb) if ta else V(1, C(0), "u")
                if op == "or": return V(1, C(1), "u") if ta else V(1, C(0), "u", cb)
                return V(1, C(0), "u", neg(cb) if ta else cb)
        def mk(e, nsw, nuw):
            if not e.t: return VC(N, e.c)
            if nsw: return V(N, e, "s")
            if nuw: return V(N, e, "u")
            return V(N, e, "m")
        if op in ("add", "sub"):
            if I["nsw"]:
                ea = self.view(st, a, "s"); eb = self.view(st, b, "s")
                return mk(ea + eb if op == "add" else ea - eb, True, False)
            be = b.e
            if not be.t and op == "add" and be.c >> (N - 1): be = C(be.c - (1 << N))
            return mk(a.e + be if op == "add" else a.e - be, False, I["nuw"])
        if op == "mul":
            if not b.e.t or not a.e.t:
                x, y = (a, b) if not b.e.t else (b, a)
                k = y.e.c
                if k >> (N - 1): k -= 1 << N
                if I["nsw"]: return mk(self.view(st, x, "s") * k, True, False)
                return mk(x.e * k, False, I["nuw"])
            ea = st.norm(self.view(st, a, "u")); eb = st.norm(self.view(st, b, "u"))
            return V(N, S(self.memo(("mul", N) + tuple(sorted((repr(ea), repr(eb)))), "(%r*%r)" % (ea, eb), *ubits(N))), "u")
        if op == "shl" and not b.e.t:
            return mk(a.e * (1 << b.e.c), False, I["nuw"])
        if op in ("lshr", "udiv") and not b.e.t:
            d = (1 << b.e.c) if op == "lshr" else b.e.c
            if d == 0: raise Fault("division by zero")
            e = self.view(st, a, "u")
            if not e.t: return VC(N, e.c // d)
            return V(N, self.divmod(st, e, d)[0], "u")
        if op == "urem":
            ea = self.view(st, a, "u"); eb = self.view(st, b, "u")
            if not eb.t:
                if eb.c == 0: raise Fault("division by zero")
                if not ea.t: return VC(N, ea.c % eb.c)
            cs = [[LT(ea, eb)], [GE(ea, eb), LT(ea, eb * 2)], [GE(ea, eb * 2)]]
            for i, cc in enumerate(cs):
                if all(st.entails(c) for c in cc):
                    if i == 0: return V(N, ea, "u")
                    if i == 1: return V(N, ea - eb, "u")
                    if not eb.t: return V(N, self.divmod(st, ea, eb.c)[1], "u")
                    r = self.unk("urem", N, "modulo by a variable, more than one wrap")
                    st.assume(LT(r.e, eb))
                    return r
            raise Split(cs)
        if op in ("sdiv", "srem", "ashr") and not b.e.t:
            d = b.e.c if op != "ashr" else 1 << b.e.c
            e = self.view(st, a, "s")
            if st.entails(GE(e, 0)) or op == "ashr":
                q, r = self.divmod(st, e, d)
                return V(N, r if op == "srem" else q, "s")
            t = st.truth(GE(e, 0))
            if t is None: raise Split([[GE(e, 0)], [LT(e, 0)]])
            q, r = self.divmod(st, -e, d)
            return V(N, -r if op == "srem" else -q, "s")
        if op in ("and", "or", "xor"):
            if not a.e.t and b.e.t: a, b = b, a
            if not b.e.t:
                c = b.e.c & ((1 << N) - 1)
                if not a.e.t:
                    x = a.e.c & ((1 << N) - 1)
                    return VC(N, {"and": x & c, "or": x | c, "xor": x ^ c}[op])
                e = self.view(st, a, "u")
                full = (1 << N) - 1
                try:
                    if op == "and":
                        hi = full & ~c
                        if hi and (hi & (hi + 1)) == 0 and c: return V(N, self.divmod(st, e, hi + 1)[0] * (hi + 1), "u")
                        if c.bit_length() <= 16 or (c & (c + 1)) == 0: return V(N, self.and_const(st, e, c), "u")
                        inv = full & ~c
                        if inv.bit_length() <= 16: return V(N, e - self.and_const(st, e, inv), "u")
                    elif op == "or" and c.bit_length() <= 16:
                        return V(N, e + c - self.and_const(st, e, c), "u")
                    elif op == "xor":
                        if c == full: return V(N, -e - 1, "m")
                        if c.bit_length() <= 16:
                            return V(N, e + c - self.and_const(st, e, c) * 2, "u")
                except ValueError: pass
            else:
                ea = st.norm(self.view(st, a, "u")); eb = st.norm(self.view(st, b, "u"))
                la, ha = st.facts.range(ea); lb, hb = st.facts.range(eb)
                if op in ("or", "xor"):
                    for p, q in ((ea, eb), (eb, ea)):
                        tz = N
                        for cf in [p.c] + [cf for _, cf in p.t]:
                            if cf: tz = min(tz, (cf & -cf).bit_length() - 1)
                        if 0 < tz < N and st.entails(GE(q, 0)) and st.entails(LE(q, (1 << tz) - 1)): return V(N, ea + eb, "u")
                if ha is not None and hb is not None and max(ha, hb) < 16 and min(la, lb) >= 0:
                    ba = self.bits_of(st, ea, 4); bb = self.bits_of(st, eb, 4)
                    for i in range(4):
                        for bi in (ba[i], bb[i]):
                            if st.truth(EQ(bi, 0)) is None: raise Split([[EQ(bi, 0)], [EQ(bi, 1)]])
                    x = sum((0 if st.entails(EQ(ba[i], 0)) else 1) << i for i in range(4))
                    y = sum((0 if st.entails(EQ(bb[i], 0)) else 1) << i for i in range(4))
                    return VC(N, {"and": x & y, "or": x | y, "xor": x ^ y}[op])
        return self.unk(op, N, "operation " + op)
    def divmod(self, st, e, d):
        e = st.norm(e)
        kk = ("div", e, d)
        if kk not in MEMO: MEMO[kk] = (new_sym("q%d" % uniq(), None, None), new_sym("r%d" % uniq(), 0, d - 1))
        q, r = MEMO[kk]
        c = EQ(e, S(q) * d + S(r))
        if not st.entails(c): st.define(c)
        return S(q), S(r)
    def memo(self, key, name, lo, hi, kind="val"):
        if key not in MEMO: MEMO[key] = new_sym(name, lo, hi, kind)
        return MEMO[key]
    # ------------------------------------------------------------ control flow
    def run_fn(self, name, args, st):
        NEST[0] += 1
        try: return self._run_fn(name, args, st)
        finally: NEST[0] -= 1
    def _run_fn(self, name, args, st):
        """-> list of ('ret', st, V) / ('abort', st, why) / ('fault', st, why) / ('back', st, loop)"""
        F = self.M.funcs[name]
        self.analysed.add(name)
        st.depth += 1
        if st.depth > 40: raise Budget()
        saved = st.env; sfn = st.fn; sline = st.line
        st.env = {("a", i): a for i, a in enumerate(args)}
        st.fn = name
        out = []
        top = st.depth == 1
        if top: self.top_out = []; self.exhausted = False
        try: res = self.run_blocks(F, [(st, 0, None, 0)], None, self.top_out if top else None)
        except Budget:
            if not top: raise
            res = list(self.top_out); self.exhausted = True
            for L in self.loops: res += [("back", b, L) for b in L.backs]
        for r in res:
            if r[0] == "ret":
                s2 = r[1]; s2.env = dict(saved); s2.fn = sfn; s2.line = sline; s2.depth -= 1
            out.append(r)
        return out
    def run_blocks(self, F, work, region, out=None):
        """region: None or (blocks, header): stop when control returns to header or leaves"""
        if out is None: out = []
        work = list(work)
        first = True
        while work:
            st, bb, prev, idx = work.pop()
            # transition handling is done at branch time via self.goto
            blk = F.blocks[bb]
            if st.peel is not None and idx == 0 and not first and not quiet(st.trace, st.peel[0]):
                st.peel[1].append(1); continue
            if idx == 0 and not (region and bb == region[1] and first) and bb in F.loops and prev is not None:
                if st.peel is not None:
                    st.peel[1].append(1); continue
                if region and bb == region[1]:
                    out.append(("again", st, bb, prev)); first = False
                    continue
                how = self.again(F, bb, st, prev) if self.unroll and (self.unroll is True or F.name in self.unroll) else False
                if how == "cut": continue
                if how == "hang":
                    st.event("fault", "loop without end", ())
                    out.append(("fault", st, "a loop goes on without end")); continue
                if how: pass
                elif self.table_walk(F, bb, st, prev) or self.few(F, bb, st, prev): pass
                else:
                    res = self.do_loop(F, bb, st, prev)
                    for r in res:
                        if r[0] == "exit":
                            _, s2, b2, p2 = r
                            if region and b2 not in region[0]: out.append(("exit", s2, b2, p2))
                            elif region and b2 == region[1]: out.append(("again", s2, b2, p2))
                            else: work.append((s2, b2, p2, 0))
                        else: out.append(r)
                    first = False
                    continue
            first = False
            if idx == 0 and prev is not None and not (region and bb == region[1] and prev == -1):
                # evaluate phis
                try:
                    vals = []
                    for I in blk:
                        if I["op"] != "phi": break
                        for o, p in I["in"]:
                            if p == prev: vals.append((I["id"], self.ev(st, o)))
                    for i, v in vals: st.env[i] = v
                except Dead:
                    continue
            i = idx
            dead = False
            while True:
                I = blk[i]
                op = I["op"]
                if op == "phi": i += 1; continue
                if "line" in I:
                    st.line = I["line"]
                self.steps += 1
                if self.steps > self.maxsteps: raise Budget()
                if not self.steps & 0x3ff and DEADLINE and time.time() > DEADLINE: raise Deadline()
                try:
                    if op == "br":
                        if "c" not in I:
                            tgts = [(st, I["t"])]
                        else:
                            c = self.as_cond(st, self.ev(st, I["c"]))
                            t = st.truth(c)
                            if t is True: tgts = [(st, I["t"])]
                            elif t is False: tgts = [(st, I["f"])]
                            else:
                                if self.on_undef: self.on_undef(st, [y for y in st.norm(c[1]).syms() if SYMS[y].taint in ("uninitialised", "undef operand")])
                                s2 = st.fork()
                                tgts = []
                                if self._as(st, c): tgts.append((st, I["t"]))
                                if self._as(s2, neg(c)): tgts.append((s2, I["f"]))
                                self.nstates += 1
                        self._branch(tgts, bb, region, work, out)
                        break
                    if op == "switch":
                        a = self.ev(st, I["a"])
                        e = self.view(st, a, "u")
                        tgts = []; rest = []
                        for cv, tb in I["cases"]:
                            k = int(cv["v"]) & ((1 << a.bits) - 1)
                            s2 = st.fork()
                            if s2.try_assume(rest + [EQ(e, k)]): tgts.append((s2, tb))
                            rest.append(NE(e, k))
                        if st.try_assume(rest): tgts.append((st, I["d"]))
                        self._branch(tgts, bb, region, work, out)
                        break
                    if op == "ret":
                        v = self.ev(st, I["v"]) if "v" in I else None
                        out.append(("ret", st, v))
                        break
                    if op == "unreachable":
                        out.append(("abort", st, "unreachable"))
                        break
                    if op == "call":
                        res = self.call(st, I)
                        if res is None: i += 1; continue
                        cont = []
                        for r in res:
                            if r[0] == "ret":
                                if r[2] is not None: r[1].env[I["id"]] = r[2]
                                cont.append(r[1])
                            else: out.append(r)
                        if not cont: break
                        for s2 in cont[1:]: work.append((s2, bb, prev, i + 1))
                        st = cont[0]
                        if i + 1 == 0: pass
                        i += 1
                        self.nstates += len(cont) - 1
                        if self.nstates > self.budget: raise Budget()
                        continue
                    self.step(st, I)
                    i += 1
                except Split as sp:
                    self.nstates += len(sp.cases) - 1
                    if self.nstates > self.budget: raise Budget()
                    base = getattr(sp, "state", None) or st
                    n = 0
                    for cs in sp.cases:
                        s2 = base.fork()
                        if s2.try_assume(cs):
                            work.append((s2, bb, prev if False else None, i)) if i > 0 else work.append((s2, bb, None, i))
                            n += 1
                    break
                except Dead:
                    break
                except Fault as f:
                    st.event("fault", f.what, ())
                    out.append(("fault", st, f.what))
                    break
        return out
    def _as(self, st, c):
        try: st.assume(c)
        except Dead: return False
        return not st.facts.bad
    def _branch(self, tgts, bb, region, work, out):
        for s2, tb in tgts:
            if region and tb == region[1]: out.append(("again", s2, tb, bb))
            elif region and tb not in region[0]: out.append(("exit", s2, tb, bb))
            else: work.append((s2, tb, bb, 0))
        if self.nstates > self.budget: raise Budget()
    # ------------------------------------------------------------ loops
    def again(self, F, hdr, st, prev):
        k = (F.name, hdr, st.depth)
        inside = prev in F.loops[hdr]
        n = st.unr.get(k, 0) + 1 if inside else 0
        if n >= self.maxunroll:
            last = st.unr.get(k + ("snap",)) if n > self.maxunroll else None
            snap = self.snapshot(F, hdr, st, prev, last)
            if last is not None and last == snap: return "hang"
            if last is not None and last[-2:] == snap[-2:] and n < self.maxunroll + 600:      # nothing was chosen or asked since: it may come round
                st.unr = dict(st.unr); st.unr[k] = n
                return True
            if n > self.maxunroll:
                self.runaway.append((F.name, st.line, st.fork())); self.exhausted = True
                if len(self.runaway) > 60: raise Budget()
                return "cut"
            st.unr = dict(st.unr); st.unr[k] = n; st.unr[k + ("snap",)] = snap
            return True
        st.unr = dict(st.unr); st.unr[k] = n
        return True
    def snapshot(self, F, hdr, st, prev, last=None):
        """all that the next iteration depends on: equal snapshots of two iterations with no choice made, and nothing
        asked of the environment, in between mean that the loop never ends"""
        env = []
        for I in F.blocks[hdr]:
            if I["op"] != "phi": break
            for o, p in I["in"]:
                if p == prev and not self.idle_value(F, I["id"]):
                    v = self.ev(st, o); env.append((I["id"], st.norm(v.e) if v.cond is None else repr(v.cond), v.bits))
        mem = {}
        for key, o in st.mem.items():
            b = keybase(key)
            if last is not None and b is not None and SYMS[b].kind == "alloca" and (key, "r") not in last[1]: continue       # a local of a call that has returned
            for off, (sz, v, w) in o.cells.items():
                if isinstance(v, V): mem[(key, off)] = (sz, st.norm(v.e) if v.cond is None else repr(v.cond))
                else: mem[(key, off)] = (sz, repr(v.__dict__ if hasattr(v, "__dict__") else v))
            mem[(key, "r")] = repr(o.regions)
        asked = 0; t = st.trace
        while t:
            if t[1].kind not in ("call", "store", "memcpy", "memset", "link", "loop"): asked += 1
            t = t[0]
        return (env, mem, {g: st.norm(v) for g, v in st.ghost.items()}, len(st.facts.raw), asked)
    def idle_value(self, F, i):
        """a value that is only ever added up, and never looked at"""
        memo = F.__dict__.setdefault("idle", {})
        if i in memo: return memo[i]
        users = F.__dict__.get("users")
        if users is None:
            users = F.__dict__["users"] = {}
            def refs(x):
                if isinstance(x, dict):
                    if x.get("k") == "v" and "id" in x and "op" not in x: yield x["id"]
                    for y in x.values(): yield from refs(y)
                elif isinstance(x, (list, tuple)):
                    for y in x: yield from refs(y)
            for blk in F.blocks:
                for I in blk:
                    for r in refs({k: v for k, v in I.items() if k != "id"}): users.setdefault(r, []).append(I)
        seen, todo, ok = {i}, [i], True
        while todo and ok:
            for I in users.get(todo.pop(), []):
                if I["op"] in ("phi", "add", "sub", "mul", "zext", "sext", "trunc", "and", "or", "xor", "shl", "bin"):
                    if I["id"] not in seen: seen.add(I["id"]); todo.append(I["id"])
                else: ok = False; break
        memo[i] = ok
        return ok
    def few(self, F, hdr, st, prev, most=8):
        """a loop whose counter goes from one constant to another in a few constant steps is followed step by step"""
        k = (F.name, hdr)
        if k not in self.fewmemo:
            self.fewmemo[k] = None
            phis = {I["id"]: I for I in F.blocks[hdr] if I["op"] == "phi" and I["ty"].startswith("i")}
            defs = {I["id"]: I for b in F.blocks for I in b if "id" in I}
            def step(o, i, depth=0):                    # o == phi i + constant
                if o.get("k") == "i": return None
                if o.get("k") != "v" or depth > 4: return None
                if o["id"] == i: return 0
                D = defs.get(o["id"])
                if D is None: return None
                if D["op"] == "copy": return step(D["a"], i, depth + 1)
                if D["op"] == "bin" and D.get("bop", D.get("o")) in ("add", "sub"):
                    for x, y in ((D["a"], D["b"]), (D["b"], D["a"])):
                        if y.get("k") == "i":
                            r = step(x, i, depth + 1)
                            if r is None: return None
                            w_ = int(y["v"]) % (1 << int(y.get("b", 32))); c = w_ if w_ < 1 << (int(y.get("b", 32)) - 1) else w_ - (1 << int(y.get("b", 32)))
                            return r + c if D.get("bop", D.get("o")) == "add" else r - c
                return None
            def strip(o):
                for _ in range(4):
                    D = defs.get(o.get("id")) if o.get("k") == "v" else None
                    if D is None or D["op"] not in ("cast", "copy"): return o
                    o = D["a"]
                return o
            t = F.blocks[hdr][-1]
            if t["op"] == "br" and t.get("c") is not None and t["c"].get("k") == "v":
                D = defs.get(t["c"]["id"])
                if D is not None and D["op"] == "icmp":
                    for x, y in ((D["a"], D["b"]), (D["b"], D["a"])):
                        x = strip(x)
                        if y.get("k") != "i" or x.get("k") != "v" or x["id"] not in phis: continue
                        ss = set(step(strip(o), x["id"]) for o, p in phis[x["id"]]["in"] if p in F.loops[hdr])
                        if len(ss) == 1 and None not in ss and 0 not in ss: self.fewmemo[k] = (x["id"], int(y["v"]), ss.pop())
        m = self.fewmemo[k]
        if m is None: return False
        i, bound, c = m
        kk = ("few",) + k + (st.depth,)
        if prev in F.loops[hdr]:
            n = st.unr.get(kk, 0)
            if not n: return False
            st.unr = dict(st.unr); st.unr[kk] = n + 1
            return n <= most + 2
        for I in F.blocks[hdr]:
            if I.get("id") == i:
                for o, p in I["in"]:
                    if p == prev:
                        v = st.norm(self.ev(st, o).e)
                        yes = not v.t and abs(bound - v.c) <= most * abs(c) and (bound - v.c) * c >= 0
                        st.unr = dict(st.unr); st.unr[kk] = 1 if yes else 0
                        return yes
        return False
    def table_walk(self, F, hdr, st, prev):
        """a loop stepping a pointer through a constant, initialised table is followed entry by entry"""
        for I in F.blocks[hdr]:
            if I["op"] != "phi" or I["ty"] != "p": continue
            for o, p in I["in"]:
                if p == prev:
                    v = st.norm(self.ev(st, o).e)
                    b = keybase(v.t) if v.t else None
                    if b is not None and SYMS[b].kind == "global" and v == S(b) + v.c and self.M.globals.get(SYMS[b].name[1:], {}).get("init"):
                        if v.c > self.M.globals[SYMS[b].name[1:]]["size"]: raise Budget()
                        return True
        # or indexes such a table with a counter
        for I in F.blocks[hdr]:
            if I["op"] != "phi" or not I["ty"].startswith("i"): continue
            for o, p in I["in"]:
                if p != prev: continue
                v = st.norm(self.ev(st, o).e)
                if v.t: continue
                deps = {I["id"]}
                for bb in sorted(F.loops[hdr]):
                    for J in F.blocks[bb]:
                        if J["op"] not in ("load", "call", "phi", "br", "switch", "store", "icmp", "alloca", "gep") and "id" in J and any(isinstance(x, dict) and x.get("k") == "v" and x.get("id") in deps for x in J.values()): deps.add(J.get("id"))
                for bb in sorted(F.loops[hdr]):
                    for J in F.blocks[bb]:
                        if J["op"] != "gep" or not any(x.get("k") == "v" and x.get("id") in deps for x, _ in J["idx"]): continue
                        try: bs = st.norm(self.ev(st, J["base"]).e)
                        except Exception: continue
                        b = keybase(bs.t) if bs.t else None
                        if b is None or SYMS[b].kind != "global" or bs != S(b) + bs.c: continue
                        g = self.M.globals.get(SYMS[b].name[1:], {})
                        if not g.get("init"): continue
                        if not 0 <= v.c <= g["size"]: raise Budget()
                        return True
        return False
    def do_loop(self, F, hdr, st, prev):
        blocks = F.loops[hdr]
        self.nloops += 1
        phis = [I for I in F.blocks[hdr] if I["op"] == "phi"]
        init = {}
        for I in phis:
            for o, p in I["in"]:
                if p == prev: init[I["id"]] = self.ev(st, o)
        entry = st
        hav_regs = {}
        hav_cells = set(); hav_ghost = set(); hav_phi = set(I["id"] for I in phis)
        cand_off = set()
        symtab = {}
        sym0 = len(SYMS)
        for rnd in range(12):
            h = entry.fork()
            L = Loop(); L.fn = F.name; L.line = None; L.header = hdr; L.init = init; L.sym = {}; L.cells = {}; L.names = {}
            for I in F.blocks[hdr]:
                if "line" in I: L.line = I["line"]; break
            L.entry = entry; L.trace0 = entry.trace
            roots = set()
            cands = []
            for I in phis:
                i = I["id"]
                L.names[i] = I.get("name", "")
                if i not in hav_phi:
                    h.env[i] = init[i]; continue
                iv = init[i]
                sk = ("phi", i, rnd if False else 0)
                if sk not in symtab: symtab[sk] = self.hav_like(I, iv, h)
                v = symtab[sk]
                h.env[i] = v
                L.sym[i] = v
                for s_, _ in v.e.t: roots.add(s_)
                for c in self.cands(i, iv, v, h):
                    if c[0] not in cand_off: cands.append(c)
            for (key, off, size) in hav_cells:
                n = symtab.setdefault("epoch", uniq())
                ob = self.wobj(h, key)
                ob.cells[off] = (size, Hav(n), True)
                L.cells[(key, off, size)] = n
            for g in hav_ghost:
                nm = symtab.setdefault(("ghost", g), None)
                if nm is None:
                    lo, hi = self.ghost_range(g)
                    nm = symtab[("ghost", g)] = new_sym("%s(%r)'%d" % (g[1], g[0], uniq()), lo, hi)
                h.ghost[g] = S(nm)
                roots.add(nm)
                if g[1] == "in_use" and ("g", g) not in cand_off and entry.entails(GE(entry.ghost.get(g, self.ghost_initial(g)), 1)):
                    cands.append((("g", g), (lambda self, s, b, g=g: GE(s.ghost[g], 1)), GE(S(nm), 1)))
            for (key, off, ln), rel in hav_regs.items():
                ob = self.wobj(h, key)
                for o2 in list(ob.cells):
                    if o2 >= off and (ln.t or o2 < off + ln.c): del ob.cells[o2]
                if rel is not None and rel[0] in h.ghost: src = ("mem", h.norm(rel[1] + h.ghost[rel[0]]))
                else: src = ("app", ("loopdata%d" % symtab.setdefault(("reg", key, off), uniq()),))
                ob.regions = ((off, ln, src, {}),) + ob.regions
            L.ghosts = set(hav_ghost)
            ok = True
            for cid, mk, con in cands:
                if not h.entails(con): 
                    if not self._as(h, con): ok = False
            if not ok: return []
            h.event("loop", F.name, (), x=L)
            L.trace = h.trace
            L.head = h.fork()
            if h.freed != entry.freed: pass
            res = self.run_blocks(F, [(h, hdr, -1, 0)], (blocks, hdr))
            again = [r for r in res if r[0] == "again"]
            # what changed?
            newc = set(); newp = set(); newg = set(); drop = set(); newr = {}
            for _, s2, _, p2 in again:
                back = {}
                for I in phis:
                    for o, p in I["in"]:
                        if p == p2:
                            try: back[I["id"]] = self.ev(s2, o)
                            except Exception: back[I["id"]] = self.unk("back", 64, "loop")
                s2.env["__back"] = back
                for cid, mk, con in cands:
                    bv = back.get(cid[0]) if cid[0] != "g" else True
                    if bv is None: continue
                    cc = mk(self, s2, bv)
                    if cc is None or not s2.entails(cc): drop.add(cid)
                for key, o in s2.mem.items():
                    if any(derives(x, roots) for x, _ in key): continue
                    if not all(self._outer(x, sym0, symtab.get("epoch")) for x, _ in key): continue
                    for off, (size, v, w) in o.cells.items():
                        if not w: continue
                        if (key, off, size) in hav_cells: continue
                        ho = L.head.mem.get(key)
                        hc = ho.cells.get(off) if ho else None
                        if hc is not None and hc[0] == size and isinstance(hc[1], V) and isinstance(v, V) and s2.norm(hc[1].e) == s2.norm(v.e): continue
                        if isinstance(v, Hav): continue
                        if hc is None:
                            iv = REG.get((key, off, size, 0))
                            if iv is not None and isinstance(v, V) and s2.norm(iv.e) == s2.norm(v.e): continue
                        newc.add((key, off, size))
                    for rk, rel in list(hav_regs.items()):      # a region left alone while the position it follows moves on
                        if rk[0] == key and rel is not None and (not o.regions or o.regions[0][0] != rk[1] or o.regions[0][1] != rk[2] or o.regions[0][2] is None or
                                                                 o.regions[0][2][0] != "mem" or s2.norm(o.regions[0][2][1] - s2.ghost.get(rel[0], C(0)) - rel[1]) != C(0)): newr[rk] = None
                    hr = L.head.mem[key].regions if key in L.head.mem else ()
                    if o.regions is not hr and o.regions != hr:
                        new = o.regions[:len(o.regions) - len(hr)] if hr and o.regions[-len(hr):] == hr else o.regions
                        for a, ln, src, snap in new:
                            if not all(self._outer(x, sym0, symtab.get("epoch")) for x, _ in ln.t): ln = C(1 << 40)
                            rk = (key, a, ln)
                            want = None
                            if src is not None and src[0] == "mem":
                                for g, e in s2.ghost.items():
                                    if g[1] != "pos": continue
                                    d = s2.norm(src[1] - e)
                                    if not all(self._outer(x, sym0, symtab.get("epoch")) for x, _ in d.t): continue
                                    er = entry.mem[key].regions if key in entry.mem else ()
                                    if er and er[0][0] == a and er[0][1] == ln and er[0][2] is not None and er[0][2][0] == "mem" and g in entry.ghost and entry.norm(er[0][2][1] - entry.ghost[g] - d) == C(0): want = (g, d)
                            if rk not in hav_regs: newr[rk] = want
                            elif hav_regs[rk] is not None and hav_regs[rk] != want: newr[rk] = None
                for g, e in s2.ghost.items():
                    if g in hav_ghost: continue
                    if any(derives(x, roots) for x, _ in g[0].t) or not all(self._outer(x, sym0, symtab.get('epoch')) for x, _ in g[0].t): continue
                    he = L.head.ghost.get(g)
                    if he is None:
                        he = self.ghost_initial(g)
                    if s2.norm(he) != s2.norm(e): newg.add(g)
            if DEBUG_LOOP and (newc or newg or drop): print('LOOP', F.name, L.line, rnd, [self.place(k,o) [0] for k,o,_ in newc], newg, drop)
            if newc or newg or drop or newr:
                hav_regs.update(newr)
                hav_cells |= newc; hav_ghost |= newg; cand_off |= drop
                continue
            L.backs = [r[1] for r in again]
            L.roots = roots
            self.loops.append(L)
            out = [r for r in res if r[0] != "again"]
            if self.rotate is True or (self.rotate and F.name in self.rotate):
                # leaving right at the loop head: from the state before the loop, or from the end of some iteration
                out = [r for r in out if not (r[0] == "exit" and quiet(r[1].trace, L.trace))]
                z = entry.fork(); z.event("loop", F.name, (), x=L)
                L.cont = set()      # back states from which a further iteration can follow
                for s0, p0, b0 in [(z, prev, None)] + [(r[1].fork(), r[3], r[1]) for r in again]:
                    more = []; base = s0.trace; s0.peel = (base, more)
                    for r in self.run_blocks(F, [(s0, hdr, p0, 0)], (blocks, hdr)):
                        if r[0] == "exit" and quiet(r[1].trace, base):
                            r[1].peel = None; out.append(r)
                        elif r[0] == "again": more.append(1)
                    if more: L.cont.add(id(b0))
            for r in again: out.append(("back", r[1], L))
            L.exits = [r for r in res if r[0] == "exit"]
            return out
        raise Budget()
    def _outer(self, x, sym0, ep, seen=frozenset()):
        """symbol with the same meaning in every iteration"""
        if x < sym0: return True
        if x in seen: return True
        seen = seen | {x}
        if SYMS[x].kind in ("heap", "alloca"): return False
        o = ORIGIN.get(x)
        if o is None or (ep is not None and OEPOCH.get(x, 0) >= ep): return False
        return all(self._outer(y, sym0, ep, seen) for y, _ in o[0])
    def hav_like(self, I, iv, st):
        nm = I.get("name") or "phi"
        nm = "%s~%d" % (re.sub(r"\.\d+$", "", nm), uniq())
        if I["ty"] == "p":
            s_ = ptr_sym(nm, True, None)
            ivn = st.norm(iv.e)
            b = keybase(ivn.t) if ivn.t else None
            if b is not None and ivn == S(b):
                if b in PTYPE: PTYPE[s_] = PTYPE[b]
                if b in OWNER: OWNER[s_] = OWNER[b]
            elif b is not None:
                pass
            return V(64, S(s_), "u")
        bits = int(I["ty"][1:]) if I["ty"][0] == "i" else 64
        rep = "s" if iv.rep == "s" else "u"
        if bits == 1: return V(1, S(new_sym(nm, 0, 1)), "u")
        if not iv.e.t and bits >= 32: rep = "s" if self._signed_phi(I) else "u"
        lo, hi = sbits(bits) if rep == "s" else ubits(bits)
        return V(bits, S(new_sym(nm, lo, hi)), rep)
    def _signed_phi(self, I): return False
    def cands(self, i, iv, v, h):
        out = []
        if not v.e.t: return out
        if v.bits == 64 and SYMS[v.e.t[0][0]].kind == "ptr":
            if h.entails(GE(iv.e, 1)):
                out.append(((i, "nn"), lambda self, s, b: GE(b.e, 1) if b.cond is None else None, GE(v.e, 1 << 20)))
                out[-1] = ((i, "nn"), (lambda self, s, b: GE(b.e, 1)), GE(v.e, 1 << 20))
            return out
        if v.bits == 1 or iv.cond is not None: return out
        try:
            e0 = iv.e if iv.rep == v.rep or not iv.e.t else None
            if e0 is None: return out
            if not e0.t and v.rep == "u": e0 = C(e0.c & ((1 << v.bits) - 1))
            vw = v.rep
            def val(self, s, b):
                try: return self.view(s, b, vw)
                except (Split, Dead): return None
            def mkge(self, s, b, e0=e0):
                x = val(self, s, b)
                return None if x is None else GE(x, e0)
            def mkle(self, s, b, e0=e0):
                x = val(self, s, b)
                return None if x is None else LE(x, e0)
            out.append(((i, "ge"), mkge, GE(v.e, e0)))
            out.append(((i, "le"), mkle, LE(v.e, e0)))
            def mknz(self, s, b):
                x = val(self, s, b)
                return None if x is None else NE(x, 0)
        except ValueError: pass
        return out
    def ghost_range(self, g): return (0, 0xFF77) if g[1] == "in_use" else (0, None)
    def ghost_initial(self, g):
        k = ("ghost0", g)
        if k not in MEMO:
            lo, hi = self.ghost_range(g)
            MEMO[k] = new_sym("%s(%r)" % (g[1], g[0]), lo, hi)
        return S(MEMO[k])
    def gget(self, st, addr, name, *rest):
        g = (st.norm(addr), name) + rest
        if g not in st.ghost: st.ghost[g] = self.ghost_initial(g)
        return st.ghost[g]
    def gset(self, st, addr, name, val, *rest):
        st.ghost[(st.norm(addr), name) + rest] = val
    # ------------------------------------------------------------ calls
    def call(self, st, I):
        c = I["callee"]
        args = [self.ev(st, a) for a in I["args"]]
        self.calls += 1
        if c["k"] != "f":
            v = self.ev(st, c)
            e = st.norm(v.e)
            if not e.t:
                raise Fault("call through null function pointer")
            if len(e.t) == 1 and e.t[0][0] in FUNNAME and e.c == 0:
                name = FUNNAME[e.t[0][0]]
            else:
                return self.callback(st, I, e, args)
        else: name = c["n"]
        return self.call_named(st, I, name, args)
    def call_named(self, st, I, name, args):
        if name.startswith("llvm."):
            return self.intrinsic(st, I, name, args)
        m = self.opaque.get(name) or self.models.get(name)
        if m is not None:
            before = st.fork()
            try:
                return m(self, st, I, name, args)
            except Split as sp:
                sp.state = before
                raise
            except Dead:
                raise
        if self.M.defined(name):
            # by-value aggregates: copy
            st.event("call", name, args)
            return self.run_fn(name, args, st)
        return self.external(st, I, name, args)
    def external(self, st, I, name, args):
        r = None
        if I["ty"] != "v":
            b = int(I["ty"][1:]) if I["ty"][0] == "i" else 64
            r = self.unk("ret(%s)" % name, b, "unmodelled external " + name)
        st.event("ext", name, args, r)
        return [("ret", st, r)]
    def callback(self, st, I, e, args):
        s_ = e.t[0][0]
        whole = st.fork() if self.reenter else None
        if self.on_callback: self.on_callback(st, s_, args, not st.entails(NE(e, 0)))
        if not st.entails(NE(e, 0)):
            st.event("maybe_null_call", SYMS[s_].name, ())
            st.assume(NE(e, 0))
        fld = SYMS[s_].field
        name = fld[1] if isinstance(fld, tuple) else SYMS[s_].name
        r = None
        if I["ty"] != "v":
            if I["ty"] == "p":
                r = V(64, S(ptr_sym("ret(%s)#%d" % (name, uniq()), True, None, "base")), "u")
            else:
                b = int(I["ty"][1:])
                r = self.new_val("ret(%s)#%d" % (name, uniq()), b, b == 32)
        ev_ = st.event("cb", name, args, r, x=SYMS[s_])
        if name == "payload_alloc" and r is not None and args:
            try: SYMS[r.e.t[0][0]].field = self.view(st, args[0], "u")      # what was asked for
            except Split: pass
        if self.callback_hook: self.callback_hook(self, st, name, args, r)
        else: self.default_cb(st, name, args)
        if name in self.reenter:
            try: return self.reenter[name](self, st, I, args, r)
            except Split as sp:
                sp.state = whole; raise
        return [("ret", st, r)]
    def default_cb(self, st, name, args):
        for i, a in enumerate(args):
            n = st.norm(a.e)
            b = keybase(n.t) if n.t else None
            if b is not None and SYMS[b].kind == "alloca":
                # callee may write through it
                tag = ("%s.arg%d#%d" % (name, i, uniq()),)
                sz = SYMS[b].field
                if sz is None: continue
                # the object it was handed: from the pointer on
                o = n - S(b)
                if o.t or o.c < 0: self.region(st, S(b), sz, ("app", tag))
                else: self.region(st, n, st.norm(sz if isinstance(sz, Lin) else C(sz)) - o.c, ("app", tag))
    def intrinsic(self, st, I, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.models["memcpy"](self, st, I, "memcpy", args)
        if name.startswith("llvm.memset"):
            return self.models["memset"](self, st, I, "memset", args)
        if name.startswith("llvm.bswap"):
            return self.models["bswap"](self, st, I, name, args)
        if name.startswith("llvm.stacksave"):
            return [("ret", st, NULL)]
        if name.startswith(("llvm.stackrestore", "llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.va_")):
            return [("ret", st, None)]
        if name.startswith("llvm.expect"): return [("ret", st, args[0])]
        r = None
        if I["ty"] != "v":
            b = int(I["ty"][1:]) if I["ty"][0] == "i" else 64
            r = self.unk("ret(%s)" % name, b, "intrinsic " + name)
        return [("ret", st, r)]

def _Const(c, view): return C(c)

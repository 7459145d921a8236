"""Numeric abstract domain: conjunctions of integer linear constraints over symbols.

Facts keeps equalities in solved form (substitution), inequalities, disequalities and interval bounds.
Entailment is decided by Fourier-Motzkin elimination with integer tightening, on the connected
component of the query only.  No external solver is used.
"""
from math import gcd
import sys

class SymInfo:
    __slots__ = ("id", "name", "lo", "hi", "kind", "taint", "field", "note")
    def __init__(s, id, name, lo, hi, kind, taint, field):
        s.id = id; s.name = name; s.lo = lo; s.hi = hi; s.kind = kind; s.taint = taint; s.field = field; s.note = None

SYMS = []
def new_sym(name, lo=None, hi=None, kind="val", taint=None, field=None):
    i = len(SYMS)
    SYMS.append(SymInfo(i, name, lo, hi, kind, taint, field))
    return i

class Lin:
    __slots__ = ("c", "t", "h")
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self.h = hash((c, t))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def is_const(self): return not self.t
    def syms(self): return [s for s, _ in self.t]
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n: d[s] = n
            else: d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(self): return Lin(-self.c, tuple((s, -k) for s, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, k):
        if isinstance(k, Lin):
            if k.is_const(): k = k.c
            elif self.is_const(): return k * self.c
            else: raise ValueError
        if k == 0: return Lin(0)
        if k == 1: return self
        return Lin(self.c * k, tuple((s, q * k) for s, q in self.t))
    __rmul__ = __mul__
    def coef(self, s):
        for x, k in self.t:
            if x == s: return k
        return 0
    def subst(self, m):
        if not self.t: return self
        hit = False
        for s, _ in self.t:
            if s in m: hit = True; break
        if not hit: return self
        d = {}; c = self.c
        for s, k in self.t:
            r = m.get(s)
            if r is None:
                n = d.get(s, 0) + k
                if n: d[s] = n
                else: d.pop(s, None)
            else:
                c += r.c * k
                for s2, k2 in r.t:
                    n = d.get(s2, 0) + k2 * k
                    if n: d[s2] = n
                    else: d.pop(s2, None)
        return Lin(c, tuple(sorted(d.items())))
    def __repr__(self):
        if not self.t: return str(self.c)
        out = ""
        for s, k in self.t:
            n = SYMS[s].name
            if k == 1: p = n
            elif k == -1: p = "-" + n
            else: p = "%d*%s" % (k, n)
            out += (" + " if out and not p.startswith("-") else (" " if out else "")) + p
        if self.c: out += (" + %d" % self.c) if self.c > 0 else (" - %d" % -self.c)
        return out

def S(i): return Lin(0, ((i, 1),))
def C(c): return Lin(c)

# ---- constraints: ('ge', Lin) Lin>=0 ; ('eq', Lin) ; ('ne', Lin)
def neg(con):
    op, e = con
    if op == "ge": return ("ge", -e - 1)
    if op == "eq": return ("ne", canon(e))
    return ("eq", canon(e))

def canon(e):
    if e.t and e.t[0][1] < 0: return -e
    return e

def GE(a, b=0): return ("ge", a - b if not isinstance(b, int) else a - b)
def LE(a, b=0):
    return ("ge", (b - a) if isinstance(b, Lin) else (-a + b))
def GT(a, b=0): return GE(a - 1, b)
def LT(a, b=0): return LE(a + 1, b)
def EQ(a, b=0): return ("eq", canon(a - b))
def NE(a, b=0): return ("ne", canon(a - b))

def con_repr(c):
    return {"ge": "%r >= 0", "eq": "%r == 0", "ne": "%r != 0"}[c[0]] % (c[1],)

def tighten(e):
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1: return e
    if g > 1:
        return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
    return e

FM_LIMIT = 1500
STATS = {"fm": 0, "fm_cache": 0, "fm_giveup": 0, "entails": 0}
_fm_cache = {}

def fm_infeasible(cons):
    """cons: iterable of Lin (>=0).  True if proved to have no integer solution; False otherwise."""
    key = frozenset(cons)
    r = _fm_cache.get(key)
    if r is not None:
        STATS["fm_cache"] += 1
        return r
    STATS["fm"] += 1
    r = _fm(key, None)
    _fm_cache[key] = r
    return r

def _fm(cons, stack):
    cur = {}
    def put(d, e):
        e = tighten(e)
        if not e.t: return e.c >= 0
        o = d.get(e.t)
        if o is None or e.c < o: d[e.t] = e.c
        return True
    for e in cons:
        if not put(cur, e): return True
    while cur:
        # opposite pairs check + choose variable
        pos = {}; negc = {}
        for t in cur:
            for s, k in t:
                if k > 0: pos[s] = pos.get(s, 0) + 1
                else: negc[s] = negc.get(s, 0) + 1
        best = None; bc = None
        for s in set(pos) | set(negc):
            p = pos.get(s, 0); n = negc.get(s, 0)
            cost = p * n - p - n
            if bc is None or cost < bc or (cost == bc and s < best): best = s; bc = cost
        v = best
        ups = []; los = []; rest = {}
        for t, c in cur.items():
            k = 0
            for s, q in t:
                if s == v: k = q; break
            if k > 0: los.append((k, Lin(c, t)))
            elif k < 0: ups.append((-k, Lin(c, t)))
            else: rest[t] = c
        if stack is not None: stack.append((v, los, ups))
        if len(los) * len(ups) + len(rest) > FM_LIMIT:
            STATS["fm_giveup"] += 1
            return False
        for kl, l in los:
            for ku, u in ups:
                g = gcd(kl, ku)
                e = l * (ku // g) + u * (kl // g)
                if not put(rest, e): return True
        cur = rest
    return False

def find_model(cons, diseqs, tries=4000):
    """Integer witness for Lin>=0 constraints and Lin!=0 diseqs, or None: one search per group of related symbols"""
    up = {}
    def top(s):
        while up.get(s, s) != s: s = up[s]
        return s
    groups = {}; both = [(e, 0) for e in cons] + [(e, 1) for e in diseqs]
    for e, k in both:
        if not e.t:
            if (e.c < 0 if k == 0 else e.c == 0): return None
            continue
        a = top(e.t[0][0])
        for s, _ in e.t[1:]: up[top(s)] = a
    for e, k in both:
        if e.t: groups.setdefault(top(e.t[0][0]), ([], []))[k].append(e)
    model = {}
    for cs, ds in groups.values():
        m = group_model(cs, ds, tries)
        if m is None: return None
        model.update(m)
    return model

def group_model(cons, diseqs, tries):
    stack = []
    if _fm(frozenset(cons), stack): return None
    budget = [tries]
    order = list(reversed(stack))
    allv = set(s for e in list(cons) + list(diseqs) for s, _ in e.t)
    elim = set(v for v, _, _ in stack)
    model = {}
    for v in allv - elim:
        pass
    free = sorted(allv - elim)
    order = [(v, [], []) for v in free] + order
    dis = list(diseqs); conl = list(cons)
    at = {v: k for k, (v, _, _) in enumerate(order)}; due = [[] for _ in order]     # the differences that are known once a symbol has its value
    for e in dis:
        if e.t: due[max(at[s] for s, _ in e.t)].append(e)
    def ev(e, m):
        c = e.c
        for s, k in e.t:
            x = m.get(s)
            if x is None: return None
            c += k * x
        return c
    def rec(i):
        if budget[0] <= 0: return False
        budget[0] -= 1
        if i == len(order):
            for e in conl:
                x = ev(e, model)
                if x is None or x < 0: return False
            for e in dis:
                if ev(e, model) == 0: return False
            return True
        v, los, ups = order[i]
        lo = hi = None
        for k, e in los:      # k*v + rest >= 0
            r = ev(Lin(e.c, tuple(x for x in e.t if x[0] != v)), model)
            if r is None: continue
            b = -(r // k)     # ceil(-r/k)
            if lo is None or b > lo: lo = b
        for k, e in ups:      # -k*v + rest >= 0
            r = ev(Lin(e.c, tuple(x for x in e.t if x[0] != v)), model)
            if r is None: continue
            b = r // k
            if hi is None or b < hi: hi = b
        if lo is not None and hi is not None and lo > hi: return False
        cand = []
        if lo is not None:
            cand += [lo, lo + 1, lo + 2, lo + 7]
            if hi is not None: cand += [hi, hi - 1, (lo + hi) // 2, hi - 2]
        elif hi is not None: cand += [hi, hi - 1, hi - 2, hi - 7]
        else: cand += [0, 1, -1, 2, 17]
        if (lo is None or lo <= 1) and (hi is None or hi >= 1): cand.append(1)
        if len(due[i]) > 3:             # as many candidates as there are values to stay away from
            b = lo if lo is not None else 0 if hi is None else hi - len(due[i]) - 1
            cand += range(b, b + len(due[i]) + 2)
        seen = set()
        for x in cand:
            if x in seen or (lo is not None and x < lo) or (hi is not None and x > hi): continue
            seen.add(x)
            model[v] = x
            if any(ev(e, model) == 0 for e in due[i]): del model[v]; continue
            if rec(i + 1): return True
            del model[v]
            if budget[0] <= 0: return False
        return False
    sys.setrecursionlimit(10000)
    return dict(model) if rec(0) else None


class Facts:
    __slots__ = ("sub", "ineq", "dis", "bnd", "bad", "raw")
    def __init__(self):
        self.sub = {}       # sym -> Lin (solved)
        self.ineq = {}      # t -> min c   meaning t + c >= 0
        self.dis = set()    # Lin != 0
        self.bnd = {}       # sym -> (lo,hi)
        self.bad = False
        self.raw = ()       # assumed constraints in order: (con, line)
    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub); f.ineq = dict(self.ineq); f.dis = set(self.dis); f.bnd = dict(self.bnd)
        f.bad = self.bad; f.raw = self.raw
        return f
    # -- bounds
    def bounds(self, s):
        b = self.bnd.get(s)
        if b is not None: return b
        i = SYMS[s]
        return (i.lo, i.hi)
    def range(self, e):
        lo = hi = e.c
        for s, k in e.t:
            l, h = self.bounds(s)
            if k < 0: l, h = h, l
            if lo is not None: lo = None if l is None else lo + k * l
            if hi is not None: hi = None if h is None else hi + k * h
        return lo, hi
    def norm(self, e): return e.subst(self.sub) if self.sub else e
    # -- adding
    def assume(self, con, line=None):
        """returns False if contradiction detected syntactically"""
        if self.bad: return False
        self.raw = self.raw + ((con, line),)
        return self._add(con)
    def _add(self, con):
        op, e = con
        e = self.norm(e)
        if op == "ge": return self._ge(e)
        if op == "ne":
            if not e.t:
                if e.c == 0: self.bad = True
                return not self.bad
            g = 0
            for _, k in e.t: g = gcd(g, k)
            if e.c % g: return True
            e = canon(e)
            if g > 1: e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
            lo, hi = self.range(e)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return True
            if lo == 0: return self._ge(e - 1)
            if hi == 0: return self._ge(-e - 1)
            self.dis.add(e)
            return True
        # eq
        if not e.t:
            if e.c != 0: self.bad = True
            return not self.bad
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if e.c % g: self.bad = True; return False
        if g > 1: e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        # choose unit symbol, newest first
        pick = None
        for s, k in sorted(e.t, reverse=True):
            if abs(k) == 1: pick = (s, k); break
        if pick is None:
            return self._ge(e) and self._ge(-e)
        s, k = pick
        rhs = Lin(e.c, tuple(x for x in e.t if x[0] != s))
        rhs = -rhs if k == 1 else rhs
        lo, hi = self.bounds(s)
        m = {s: rhs}
        self.bnd.pop(s, None)
        for q in list(self.sub):
            r = self.sub[q]
            r2 = r.subst(m)
            if r2 is not r: self.sub[q] = r2
        self.sub[s] = rhs
        mod = [t for t in self.ineq if any(x == s for x, _ in t)]
        pend = [Lin(self.ineq.pop(t), t) for t in mod]
        dm = [d for d in self.dis if d.coef(s)]
        for d in dm: self.dis.discard(d)
        for p in pend:
            if not self._ge(p.subst(m)): return False
        if lo is not None and not self._ge(rhs - lo): return False
        if hi is not None and not self._ge(-rhs + hi): return False
        for d in dm:
            if not self._add(("ne", d)): return False
        return True
    def _ge(self, e):
        e = tighten(e)
        if not e.t:
            if e.c < 0: self.bad = True
            return not self.bad
        if len(e.t) == 1:
            s, k = e.t[0]
            lo, hi = self.bounds(s)
            if k > 0:
                b = -e.c
                if lo is None or b > lo: lo = b
                else: return True
            else:
                b = e.c
                if hi is None or b < hi: hi = b
                else: return True
            if lo is not None and hi is not None and lo > hi: self.bad = True; return False
            self.bnd[s] = (lo, hi)
            if lo is not None and lo == hi:
                return self._add(("eq", S(s) - lo))
            for d in [d for d in self.dis if d.coef(s)]:
                l2, h2 = self.range(d)
                if l2 == 0: self.dis.discard(d); 
                elif h2 == 0: self.dis.discard(d)
                else: continue
                if not (self._ge(d - 1) if l2 == 0 else self._ge(-d - 1)): return False
            return True
        o = self.ineq.get(e.t)
        if o is not None and o <= e.c: return True
        # equality by opposite
        nt = tuple((s, -k) for s, k in e.t)
        oc = self.ineq.get(nt)
        if oc is not None:
            if oc + e.c < 0: self.bad = True; return False
            if oc + e.c == 0:
                del self.ineq[nt]
                self.ineq.pop(e.t, None)
                return self._add(("eq", e))
        lo, hi = self.range(e)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: self.bad = True; return False
        self.ineq[e.t] = e.c
        d = canon(e)
        for x in (d,):
            if x in self.dis:
                self.dis.discard(x)
                return self._ge(e - 1)
        return True
    # -- queries
    def component(self, seeds):
        """all ineqs (as Lin) and diseqs connected to seed symbols, plus bounds"""
        todo = list(seeds); seen = set(todo); out = []; used = set(); outd = []; usedd = set()
        idx = {}
        for t in self.ineq:
            for s, _ in t: idx.setdefault(s, []).append(t)
        idd = {}
        for d in self.dis:
            for s, _ in d.t: idd.setdefault(s, []).append(d)
        while todo:
            s = todo.pop()
            for t in idx.get(s, ()):
                if t in used: continue
                used.add(t); out.append(Lin(self.ineq[t], t))
                for q, _ in t:
                    if q not in seen: seen.add(q); todo.append(q)
            for d in idd.get(s, ()):
                if d in usedd: continue
                usedd.add(d); outd.append(d)
                for q, _ in d.t:
                    if q not in seen: seen.add(q); todo.append(q)
        for s in seen:
            lo, hi = self.bounds(s)
            if lo is not None: out.append(S(s) - lo)
            if hi is not None: out.append(-S(s) + hi)
        return out, outd, seen
    def _infeasible_with(self, extra):
        seeds = [s for e in extra for s, _ in e.t]
        cons, dis, seen = self.component(seeds)
        return infeasible(cons + list(extra), dis)
    def entails(self, con):
        if self.bad: return True
        STATS["entails"] += 1
        op, e = con
        e = self.norm(e)
        if op == "ge":
            if not e.t: return e.c >= 0
            lo, hi = self.range(e)
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0 and not self.ineq and not self.dis: return False
            return self._infeasible_with([-e - 1])
        if op == "eq":
            if not e.t: return e.c == 0
            return self.entails(("ge", e)) and self.entails(("ge", -e))
        if not e.t: return e.c != 0
        if canon(e) in self.dis: return True
        lo, hi = self.range(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return True
        return self._infeasible_with([e, -e])
    def consistent_with(self, con):
        """False if facts & con proved contradictory"""
        return not self.entails(neg(con))
    def witness(self, cons):
        """integer model of all facts plus cons restricted to the component of cons"""
        f = self.copy()
        for c in cons:
            if not f._add(c): return None
        seeds = set()
        for c in cons:
            for s, _ in f.norm(c[1]).t: seeds.add(s)
        # full consistency: include everything
        allc, alld, seen = f.component(set(s for t in f.ineq for s, _ in t) | set(s for d in f.dis for s, _ in d.t) | seeds)
        m = find_model(allc, alld)
        if m is None: return None
        full = dict(m)
        for s, r in f.sub.items():
            v = r.c; ok = True
            for q, k in r.t:
                if q not in full:
                    lo, hi = f.bounds(q)
                    full[q] = lo if lo is not None else (hi if hi is not None else 0)
                v += k * full[q]
            full[s] = v
        return full
    def feasible(self):
        if self.bad: return False
        allc, alld, _ = self.component(set(s for t in self.ineq for s, _ in t) | set(s for d in self.dis for s, _ in d.t))
        return not infeasible(allc, alld)

def infeasible(cons, dis):
    cons = list(cons)
    if fm_infeasible(cons): return True
    dis = list(dis)
    changed = True
    while changed and dis:
        changed = False
        for d in list(dis):
            p = fm_infeasible(cons + [d - 1])
            n = fm_infeasible(cons + [-d - 1])
            if p and n: return True
            if p or n:
                cons.append(-d - 1 if p else d - 1)
                dis.remove(d); changed = True
                if fm_infeasible(cons): return True
    return False

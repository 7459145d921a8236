"""Obligations, verdicts and reporting shared by all rules."""
import json, os, sys, time, tempfile, pickle
import ir, lin, models
from lin import *
from interp import *
import interp as IP
from models import APPS

VERIF = ir.VERIF

class Check:
    def __init__(self, prop, M):
        self.prop = prop; self.M = M
        self.proved = 0; self.violations = []; self.undecided = []; self.obls = {}; self.paths = 0
        self.analysed = set(); self.entries = []; self.notes = []; self.samples = []; self.assume = []
        self.seen = set(); self.calls = 0; self.loops = 0; self.steps = 0; self.incomplete = []; self.pruned = 0; self.gaps = []
        self.depth = 0; self.child = None; self.kids = []
        IP.SPLITTER = self.splitter
        self.tier = os.environ.get("VERIF_TIER", "quick")
    # ---------------------------------------------------------------- running functions
    def interp(self, opaque=None, ring=True, lists=True, budget=None, **kw):
        ip = Interp(self.M, models.default_models(self.M, ring, lists), opaque, **kw)
        if budget: ip.budget = budget
        if self.tier == "thorough": ip.budget *= 4; ip.maxsteps *= 4
        return ip
    def arg_syms(self, fn, **over):
        """symbolic arguments: pointers typed from debug info; over: name -> V | 'nonnull'"""
        F = self.M.funcs[fn]; args = []; by = {}
        for i, a in enumerate(F.args):
            k, sn = F.argtype(i)
            o = over.get(a["name"])
            if isinstance(o, V): v = o
            elif a["ty"] == "p":
                if k == "fptr":
                    v = V(64, S(new_sym(a["name"], 1 << 20 if o == "nonnull" else 0, 1 << 47, "fptr", None, ("arg", a["name"]))))
                else:
                    v = V(64, S(ptr_sym(a["name"], o != "nonnull", sn if sn in self.M.structs else None, "base")))
            else:
                v = IPnew(a, k)
            args.append(v); by[a["name"]] = v
        return args, by
    def need(self, *fns):
        for fn in fns:
            if not self.M.defined(fn):
                raise ir.AnalysisError("anchor vanished: function %s is not defined in the library" % fn)
    def run(self, ip, fn, args, st=None):
        self.need(fn)
        st = st or State()
        before = ip.steps
        outs = ip.run_fn(fn, args, st)
        if ip.exhausted: self.incomplete.append(fn)
        self.entries.append("%s: %d paths" % (fn, len(outs)))
        self.paths += len(outs); self.analysed |= ip.analysed; self.calls += ip.calls; self.loops += ip.nloops
        self.steps += ip.steps - before
        return outs
    # ---------------------------------------------------------------- verdicts
    def loc(self, fn, line):
        F = self.M.funcs.get(fn)
        return "%s:%s" % (F.file if F else "?", line or (F.line if F else None))
    def splitter(self, st, keep, sp):
        """a rule reads a value that needs a case distinction: every case is followed to the end of the
        property, all but the last in a process of its own (its findings are collected by finish)"""
        if self.depth >= 4: raise ir.AnalysisError("too many case distinctions on values the rule reads: %s" % "; ".join(con_repr(c) for cs in sp.cases for c in cs)[:300])
        live = []
        for cs in sp.cases:
            t = keep.fork()
            if t.try_assume(cs) and t.facts.feasible(): live.append(cs)
        if not live: raise Dead()
        for cs in live[:-1]:
            d = tempfile.NamedTemporaryFile(prefix="vsplit", delete=False).name
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                self.child = d; self.kids = []; self.depth += 1
                self.violations = []; self.undecided = []; self.gaps = []; self.proved = 0; self.obls = {}
                st.try_assume(cs); return
            self.kids.append((pid, d))
        if len(live) > 1: self.depth += 1
        st.try_assume(live[-1])
    def collect(self):
        for pid, d in self.kids:
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
            try:
                with open(d, "rb") as f: r = pickle.load(f)
            except Exception: r = None
            try: os.unlink(d)
            except OSError: pass
            if r is None:
                self.gaps.append("a case of a split value was lost"); self.incomplete.append("split"); continue
            self.proved += r["proved"]
            for k, n in r["obls"].items(): self.obls[k] = self.obls.get(k, 0) + n
            have = set(v["key"] for v in self.violations)
            for v in r["violations"]:
                if v["key"] not in have: self.violations.append(v); have.add(v["key"])
            self.undecided += r["undecided"]; self.gaps += r["gaps"]
        self.kids = []
        if self.child:
            with open(self.child, "wb") as f:
                pickle.dump(dict(proved=self.proved, obls=self.obls, violations=self.violations, undecided=self.undecided, gaps=self.gaps), f)
            sys.stdout.flush(); sys.stderr.flush(); os._exit(0)
    def close(self, st, extra=()):
        """congruence: equal arguments of an uninterpreted function give equal results"""
        return congruence(st, extra)
    def path(self, st, limit=40):
        out = []
        for c, w in st.facts.raw:
            if w is None: continue
            fn, line = w
            out.append("%s in %s: %s" % (self.loc(fn, line), fn, con_repr(c)))
        return out[-limit:]
    def taint(self, st, e_list):
        """reason if a value the engine does not know exactly is involved"""
        seeds = set()
        for e in e_list:
            for s, _ in e.t: seeds.add(s)
            for s, _ in st.norm(e).t: seeds.add(s)
        comp = st.facts.component(seeds)[2]
        direct = set(s for e in e_list for s, _ in st.norm(e).t)
        for s in comp:
            # memory that was never written holds any value: exact knowledge, if it is the value asked about
            if SYMS[s].taint and not (SYMS[s].taint == "uninitialised" and s in direct): return "%s (%s)" % (SYMS[s].name, SYMS[s].taint)
        return None
    def ob(self, rule, st, con, fn=None, line=None, what="", key=None):
        """value obligation: con holds on the path st"""
        fn = fn or st.fn; line = line if line is not None else st.line
        self.obls[rule] = self.obls.get(rule, 0) + 1
        cons = con if isinstance(con, list) else [con]
        for c in cons:
            if st.entails(c): continue
            f = self.close(st, c[1].syms())
            if f is None or not f.facts.feasible():
                self.pruned += 1; self.proved += 1; return True
            if f.entails(c): continue
            t = self.taint(f, [c[1]])
            m = None if t else f.facts.witness([neg(c)])
            if m is None:
                self.undecided.append(dict(rule=rule, at=self.loc(fn, line), function=fn, need=con_repr(c), why=t or "no integer witness found"))
                return None
            self._viol(rule, f, fn, line, what or "requires " + con_repr(c), con_repr(c), m, [c[1]], key)
            return False
        self.proved += 1
        if len(self.samples) < 6 and self.obls[rule] <= 1:
            self.samples.append("%s: %s at %s" % (rule, " & ".join(con_repr(c) for c in cons)[:300], self.loc(fn, line)))
        return True
    def fact(self, rule, st, ok, fn=None, line=None, what="", key=None, deps=()):
        """structural obligation: ok must hold unless the path is infeasible"""
        fn = fn or st.fn; line = line if line is not None else st.line
        self.obls[rule] = self.obls.get(rule, 0) + 1
        if ok:
            self.proved += 1
            if len(self.samples) < 6 and self.obls[rule] <= 1: self.samples.append("%s at %s" % (rule, self.loc(fn, line)))
            return True
        if rule.endswith(".present") and (self.incomplete or self.depth):                # a path that was not followed may be the one
            self.undecided.append(dict(rule=rule, at=self.loc(fn, line), function=fn, need=what, why="not every path was followed")); return None
        f = self.close(st)
        if f is None or not f.facts.feasible():
            self.pruned += 1; self.proved += 1; return True
        t = None
        for c, w in f.facts.raw:
            if w is None: continue
            for s in c[1].syms():
                if SYMS[s].taint: t = "%s (%s)" % (SYMS[s].name, SYMS[s].taint)
        if not t and deps: t = self.taint(f, list(deps))
        m = None if t else f.facts.witness([])
        if m is None:
            self.undecided.append(dict(rule=rule, at=self.loc(fn, line), function=fn, need=what, why=t or "no witness for the path"))
            return None
        self._viol(rule, f, fn, line, what, "", m, [], key)
        return False
    def _viol(self, rule, st, fn, line, what, con, model, es, key=None):
        k = (rule, fn, key or self.loc(fn, line))
        if k in self.seen: return
        self.seen.add(k)
        rel = set()
        for e in es:
            for s in e.syms(): rel.add(s)
        for c, w in st.facts.raw:
            for s in c[1].syms(): rel.add(s)
        vals = {SYMS[s].name: model[s] for s in sorted(rel) if s in model}
        self.violations.append(dict(rule=rule, function=fn, at=self.loc(fn, line), what=what, needed=con,
                                    key="%s|%s|%s" % (rule, fn, key or ""),
                                    path=self.path(st), events=[ev_text(self, e) for e in st.events()][-40:],
                                    example=dict(list(vals.items())[:60])))
    def unsure(self, rule, fn, need, why, line=None):
        """the construct is not one the rule understands: reported in the evidence, never as a violation"""
        self.undecided.append(dict(rule=rule, at=self.loc(fn, line), function=fn, need=need, why=why))
    def error(self, msg): raise ir.AnalysisError(msg)

def ev_text(chk, e):
    a = ", ".join(repr(st) for st in e.args)
    if e.kind == "loop": return "%s loop" % chk.loc(e.fn, e.line)
    return "%s %s %s(%s)%s" % (chk.loc(e.fn, e.line), e.kind, e.name, a[:200], " -> %r" % (e.ret,) if e.ret is not None else "")

def evals(st, f):
    """[(state, f(state))], following the case splits f needs"""
    todo = [st]; out = []
    while todo:
        s = todo.pop(); keep = s.fork()
        IP.NEST[0] += 1
        try: out.append((s, f(s)))
        except Split as sp:
            for cs in sp.cases:
                t = keep.fork()
                if t.try_assume(cs) and t.facts.feasible(): todo.append(t)
        except Dead: pass
        finally: IP.NEST[0] -= 1
    return out

def congruence(st, extra=()):
    f = st.fork()
    for _ in range(4):
        syms = set(extra)
        for t in list(f.facts.ineq): syms |= set(s for s, _ in t)
        for d in f.facts.dis: syms |= set(s for s, _ in d.t)
        for s, r in f.facts.sub.items():
            syms.add(s); syms |= set(r.syms())
        apps = [s for s in syms if s in APPS]
        seen = {}; ch = False
        for s in apps:
            fn, bits, arg = APPS[s]
            k = (fn, bits, f.norm(arg))
            if not k[2].t and fn == "bswap":
                c = models.bswap(f, k[2], bits)
                con = EQ(S(s), c)
            elif k in seen: con = EQ(S(s), S(seen[k]))
            else:
                seen[k] = s; continue
            if not f.entails(con):
                ch = True
                if not f.try_assume([con]): return None
        if not ch: break
    return f

def IPnew(a, k):
    bits = int(a["ty"][1:]) if a["ty"][0] == "i" else 64
    lo, hi = (sbits if k == "s" else ubits)(bits)
    return V(bits, S(new_sym(a["name"], lo, hi)), "s" if k == "s" else "u")

def fld(M, st, path): return M.member(st, path)[0]

# ------------------------------------------------------------------ main
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def finish(chk, t0, level="other", technique=""):
    chk.collect()
    prop = chk.prop
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))      # override used by tools/mut.py only
    os.makedirs(evdir, exist_ok=True)
    total = sum(chk.obls.values())
    listed = []; fresh = []
    for v in chk.violations:
        hit = None
        for k in known_findings():
            if k["property"] == prop and k["rule"] == v["rule"] and k["function"] == v["function"] and k.get("key", "") == v["key"].split("|", 2)[2]: hit = k
        (listed if hit else fresh).append((v, hit))
    for v, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = dict(explanation="Static analysis of the LLVM IR of the library sources of the current tree: path-partitioned abstract "
               "interpretation with a linear-integer domain, loop fixpoints and event traces; nothing of the library is executed.",
               obligations=total, discharged=chk.proved, undecided=len(chk.undecided), abstract_paths=chk.paths, call_sites=chk.calls,
               loops_summarised=chk.loops, instructions_interpreted=chk.steps, functions_analysed=sorted(chk.analysed),
               entry_points=chk.entries, obligations_per_rule=chk.obls, samples=chk.samples or ["(none)"],
               undecided_detail=chk.undecided[:30], incomplete_entries=chk.incomplete, not_followed=chk.gaps, notes=chk.notes,
               violations_detail=[v for v, _ in fresh][:20], known_findings=[k["what"] for _, k in listed],
               sources=getattr(chk.M, "sources", []))
    ev = dict(property=prop, tier=chk.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              assumptions=chk.assume, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    p = os.path.join(evdir, prop + ".json")
    with open(p, "w") as f: json.dump(ev, f, indent=1, default=str)
    for n in chk.gaps: print("INCOMPLETE: %s" % n)
    print("%s: %d obligations, %d discharged, %d undecided, %d paths, %d functions, %.1fs" %
          (prop, total, chk.proved, len(chk.undecided), chk.paths, len(chk.analysed), time.time() - t0))
    if total == 0: raise ir.AnalysisError("no obligation was generated for " + prop)
    if not fresh: return 0
    rp = os.path.join(evdir, "replay-%s.json" % prop)
    with open(rp, "w") as f: json.dump([v for v, _ in fresh], f, indent=1, default=str)
    for v, _ in fresh[:10]:
        print("  %s in %s: rule %s: %s" % (v["at"], v["function"], v["rule"], v["what"]))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1

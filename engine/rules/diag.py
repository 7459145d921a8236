"""T03: the clock; G01: diagnostics observe and never disturb."""
import re
import base, models
from models import ret, uniq, set_errno, directives, errno_addr
from rules.ctx import *
from rules.shapes import put, cell, ir_error
from rules.life import public

# ------------------------------------------------------------------------------------------------ T03
MONOTONIC = {1: "CLOCK_MONOTONIC", 4: "CLOCK_MONOTONIC_RAW", 6: "CLOCK_MONOTONIC_COARSE", 7: "CLOCK_BOOTTIME"}
def T03(chk):
    R = "T03"; M = chk.M; fn = "rmc_usec_monotonic_timestamp"
    chk.need(fn)
    chk.assume += ["the clock has not been running for more than 270 years, and reading it does not fail"]
    def clock(ip, st, I, name, args):
        sec = new_sym("seconds#%d" % uniq(), 0, 1 << 33); ns = new_sym("nanoseconds#%d" % uniq(), 0, 999999999)
        put(ip, st, args[1].e, V(64, S(sec), "s"), 8); put(ip, st, args[1].e + C(8), V(64, S(ns), "s"), 8)
        st.event("clock", name, args, VC(32, 0), x=(S(sec), S(ns)))
        return ret(st, VC(32, 0))
    def other(ip, st, I, name, args):
        v = ip.new_val("ret(%s)" % name, int(I["ty"][1:]) if I["ty"][0] == "i" else 64, True, "another clock")
        st.event("otherclock", name, args, v)
        return ret(st, v)
    ip = chk.interp(ring=False, lists=False)
    del ip.models[fn]
    ip.models["clock_gettime"] = clock
    for n in ("time", "gettimeofday", "clock", "times"): ip.models[n] = other
    seen = 0
    for k, s, x in chk.run(ip, fn, [], State()):
        ev = s.events(); ck = [e for e in ev if e.kind == "clock"]
        for e in ev:
            if e.kind == "otherclock": chk.fact(R + ".source", s, False, fn=e.fn, line=e.line, what="time is taken from %s, which can be set back" % e.name, key="source")
        if k != "ret":
            chk.unsure(R + ".unit", fn, "a time stamp", "the call does not return"); continue
        for e in ck:
            for q, a in evals(s, lambda z: ip.view(z, e.args[0], "s")):
                if a.t: chk.unsure(R + ".source", fn, "which clock", "not a constant", e.line); continue
                seen += 1
                chk.fact(R + ".source", q, a.c in MONOTONIC, fn=e.fn, line=e.line, what="time is taken from clock %d, which can be set back" % a.c, key="source")
        if not ck: chk.unsure(R + ".unit", fn, "a clock", "no clock is read"); continue
        sec, ns = ck[-1].x
        for q, r in evals(s, lambda z: ip.view(z, x, "s")):
            d = r * 1000 - sec * 1000000000 - ns
            chk.ob(R + ".unit", q, [GE(d, -1000), LE(d, 1000)], fn=fn, what="the time stamp is not the clock's time in microseconds", key="unit")
    chk.fact(R + ".present", State(), seen > 0, fn=fn, what="no clock is read", key="present")

# ------------------------------------------------------------------------------------------------ G01
# library calls that print or compute text: they leave everything of the library's alone (errno is looked at separately)
PRINTING = {"fprintf": 1, "vfprintf": 1, "printf": 0, "vprintf": 0, "sprintf": 1, "snprintf": 2, "vsprintf": 1, "vsnprintf": 2, "dprintf": 1}
INTO = ("sprintf", "snprintf", "vsprintf", "vsnprintf", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memset", "memmove", "clock_gettime", "gettimeofday", "gmtime_r", "localtime_r", "strerror_r", "inet_ntop", "strftime", "time")
HARMLESS = set(PRINTING) | set(INTO) | {"fputc", "fputs", "putc", "putchar", "puts", "fwrite", "fflush", "perror", "strerror", "inet_ntoa", "isatty", "fileno", "getenv", "atoi", "strtol", "strlen", "strcmp", "strncmp", "strchr", "strrchr", "basename", "getpid", "htonl", "htons", "ntohl", "ntohs", "bswap", "__errno_location", "abs", "pthread_self", "__assert_fail"}
def is_debug(n): return n.startswith(("llvm.va_", "llvm.dbg", "llvm.lifetime", "llvm.bswap"))

class Flow:
    """what depends on the logging threshold, and what happens only because of it"""
    def __init__(s, chk):
        s.chk = chk; s.M = chk.M; s.unit = chk.M.funcs["rmc_log"].file
        s.retdep = set(); s.eff = {}; s.readers = {}
        for f, F in s.M.funcs.items():
            for i, b in enumerate(F.blocks):
                for I in b:
                    if I["op"] == "load" and I["p"].get("k") == "g": s.readers.setdefault(I["p"]["n"], set()).add(f)
        ch = True; s.info = {}
        while ch:
            ch = False
            for f, F in s.M.funcs.items():
                if not F.blocks or f == "rmc_log": continue
                dep, br, out = s.depends(f)
                s.info[f] = (dep, br)
                if out and f not in s.retdep: s.retdep.add(f); ch = True
    def logger(s, f): return s.M.funcs[f].file == s.unit
    # ---------------------------------------------------------- control flow
    def succ(s, F, i):
        t = F.blocks[i][-1]
        if t["op"] == "br": return [t["t"]] + ([t["f"]] if "f" in t and t.get("c") is not None else [])
        if t["op"] == "switch": return list(dict.fromkeys([c[1] for c in t["cases"]] + [t["d"]]))
        return []
    def reach(s, F, frm, avoid=()):
        seen = set(); todo = [frm]
        while todo:
            b = todo.pop()
            if b in seen or b in avoid: continue
            seen.add(b); todo += s.succ(F, b)
        return seen
    def join(s, F, b):
        """the block where all ways on from b meet again (None: only at the end of the call)"""
        if not hasattr(F, "ipd"):
            n = len(F.blocks); ALL = set(range(n)) | {-1}; pd = [set(ALL) for _ in range(n)]; ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    ss = s.succ(F, i)
                    new = {i} | (set.intersection(*[pd[j] for j in ss]) if ss else {-1})
                    if new != pd[i]: pd[i] = new; ch = True
            F.ipd = pd
        c = F.ipd[b] - {b, -1}
        for j in c:
            if len(F.ipd[j]) == len(F.ipd[b]) - 1: return j
        return None
    def region(s, F, b):
        """blocks that run or not depending on the branch ending b, and where they meet again"""
        j = s.join(F, b); out = set()
        for t in s.succ(F, b): out |= s.reach(F, t, avoid=() if j is None else (j,))
        return out, j
    # ---------------------------------------------------------- what depends on the level
    def depends(s, f):
        F = s.M.funcs[f]; dep = set(); locs = set(); br = set(); out = False; ch = True
        def d(o): return o is not None and (o.get("k") == "v" and o["id"] in dep)
        while ch:
            n = (len(dep), len(locs), len(br))
            for i, b in enumerate(F.blocks):
                for I in b:
                    op = I["op"]; yes = False
                    if op == "load":
                        p = I["p"]
                        yes = p.get("k") == "g" and p["n"] == "_rmc_log_level" or s.root(F, p) in locs or d(p)
                    elif op in ("icmp", "bin", "cast", "copy", "select", "gep"): yes = any(d(I.get(q)) for q in ("a", "b", "c", "base")) or any(d(x[0] if isinstance(x, list) else x) for x in I.get("idx", []) if isinstance(x, (list, dict)))
                    elif op == "call":
                        c = I["callee"]
                        yes = c.get("k") == "f" and (c["n"] in s.retdep or s.pure(c["n"]) and any(d(a) for a in I["args"]))
                    elif op == "phi":
                        yes = any(d(a) for a, _ in I["in"]) or any(s.merges(F, g, i, I) for g in br)
                    elif op == "store" and d(I["v"]):
                        r = s.root(F, I["p"])
                        if r is not None: locs.add(r)
                    if yes and "id" in I: dep.add(I["id"])
                t = b[-1]
                if t["op"] in ("br", "switch") and d(t.get("c") if t["op"] == "br" else t.get("a")): br.add(i)
            ch = n != (len(dep), len(locs), len(br))
        for i, b in enumerate(F.blocks):
            t = b[-1]
            if t["op"] == "ret" and (d(t.get("v")) or t.get("v") is not None and any(s.region(F, g)[1] is None for g in br)): out = True
        return dep, br, out
    def merges(s, F, g, i, I):
        """the level decides what a phi yields: two ways from branch g to it bring different values"""
        reg, j = s.region(F, g)
        if i != j and i not in reg: return False
        via = set()
        for t in s.succ(F, g):
            pass
        for a, b in I["in"]:
            if b == g or b in reg: via.add(repr(sorted(a.items())))
        return len(via) > 1
    def root(s, F, o):
        """the local object an address lies in, or None"""
        if not hasattr(F, "defs"): F.defs = {I["id"]: I for b in F.blocks for I in b if "id" in I}
        for _ in range(50):
            if o is None or o.get("k") != "v": return None
            I = F.defs.get(o["id"])
            if I is None: return None
            if I["op"] == "alloca": return I["id"]
            if I["op"] == "gep": o = I["base"]
            elif I["op"] in ("copy", "cast"): o = I["a"]
            else: return None
        return None
    def private(s, g):
        """a global nobody but the logging unit, or code that runs for logging's sake, ever reads"""
        for f in s.readers.get(g, ()):
            if s.logger(f): continue
            F = s.M.funcs[f]; regs = set()
            for b in s.info.get(f, (0, ()))[1]: regs |= s.region(F, b)[0]
            if any(I["op"] == "load" and I["p"].get("n") == g and i not in regs for i, bl in enumerate(F.blocks) for I in bl): return False
        return True
    # ---------------------------------------------------------- effects
    def pure(s, n): return n in s.M.funcs and s.M.defined(n) and not s.effects(n) or n in HARMLESS or is_debug(n)
    def effects(s, f):
        """[(line, what, certain)] that a call of f has on anything but its own locals"""
        if f in s.eff: return s.eff[f]
        s.eff[f] = []
        F = s.M.funcs[f]; s.eff[f] = s.block_effects(f, range(len(F.blocks)))
        return s.eff[f]
    def block_effects(s, f, blocks):
        F = s.M.funcs[f]; out = []
        for i in blocks:
            for I in F.blocks[i]:
                ln = I.get("line")
                if I["op"] == "store":
                    p = I["p"]
                    if s.root(F, p) is not None: continue
                    if p.get("k") == "g":
                        if not s.private(p["n"]): out.append((ln, "%s is written" % p["n"], True))
                    else:
                        J = F.defs.get(p["id"]) if p.get("k") == "v" else None
                        if J is not None and J["op"] == "call" and J["callee"].get("n") == "__errno_location":
                            if not s.logger(f): out.append((ln, "errno is written", True))       # the logging unit's is rule .errno's business
                        else: out.append((ln, "memory is written", True, s.param(F, p)))
                elif I["op"] == "call":
                    c = I["callee"]
                    ns = [c["n"]] if c.get("k") == "f" else s.targets(F, c)
                    if ns is None: out.append((ln, "a callback is called", True)); continue
                    for n in ns: out += s.call_effects(F, I, ln, n)
        return out
    def param(s, F, o):
        """the index of the parameter an address is taken from, or None"""
        for _ in range(50):
            if o is None: return None
            if o.get("k") == "a": return o["i"] if "i" in o else o.get("n")
            if o.get("k") != "v": return None
            I = F.defs.get(o["id"])
            if I is None: return None
            if I["op"] == "gep": o = I["base"]
            elif I["op"] in ("copy", "cast"): o = I["a"]
            else: return None
        return None
    def targets(s, F, o, depth=0):
        """the functions a call through a constant table, or through a choice of functions, can reach (None: not known)"""
        if o is None or depth > 20: return None
        if o.get("k") == "f": return [o["n"]]
        if o.get("k") != "v": return None
        s.root(F, o); I = F.defs.get(o["id"])
        if I is None: return None
        op = I["op"]
        if op in ("copy", "cast"): return s.targets(F, I["a"], depth + 1)
        if op in ("phi", "select"):
            out = []
            for a in ([a for a, _ in I["in"]] if op == "phi" else [I["a"], I["b"]]):
                t = s.targets(F, a, depth + 1)
                if t is None: return None
                out += [x for x in t if x not in out]
            return out
        if op == "load":
            p = I["p"]
            while p is not None and p.get("k") == "v":
                J = F.defs.get(p["id"])
                p = J["base"] if J is not None and J["op"] == "gep" else J["a"] if J is not None and J["op"] in ("copy", "cast") else None
            if p is None or p.get("k") != "g": return None
            g = s.M.globals.get(p["n"], {})
            if g.get("written") or not g.get("init"): return None
            return list(dict.fromkeys(x["n"] for _, _, x in g["init"] if x.get("k") == "f"))
        return None
    def call_effects(s, F, I, ln, n):
        out = []
        if is_debug(n): return out
        if n in INTO:
            k = 1 if n in ("clock_gettime", "strerror_r") and n == "clock_gettime" else 0
            a = I["args"][k if k < len(I["args"]) else 0]
            if n == "time" and a.get("k") == "n": return out
            if s.root(F, a) is None and n not in ("inet_ntop", "strerror_r"): out.append((ln, "%s writes to memory that is not local" % n, False, s.param(F, a)))
            return out
        if n in HARMLESS: return out
        if n in s.M.funcs and s.M.defined(n):
            e = []
            for q in s.effects(n):
                if len(q) > 3 and q[3] is not None and q[3] < len(I["args"]):
                    if s.root(F, I["args"][q[3]]) is not None: continue      # written for the caller: its own local
                    k = s.param(F, I["args"][q[3]])
                    if k is not None: out.append((ln, "memory is written", q[2], k)); continue
                e.append(q)
            if e: out.append((ln, "%s is called, where %s" % (n, e[0][1]), any(q[2] for q in e)))
        elif n in models.LIBC or n in KERNEL: out.append((ln, "%s is called" % n, True))
        else: out.append((ln, "%s is called" % n, False))
        return out

KERNEL = {"read", "write", "recv", "send", "sendto", "recvmsg", "poll", "epoll_ctl", "epoll_wait", "select", "usleep", "sleep", "nanosleep", "exit", "abort", "_exit", "rand", "random"}

def G01(chk):
    R = "G01"; M = chk.M
    chk.need("rmc_log", "rmc_set_log_level")
    if "_rmc_log_level" not in M.globals: raise ir_error("anchor vanished: no _rmc_log_level")
    chk.assume += ["a print call writes to its stream only; it may fail and change errno", ASSUME_CB, ASSUME_RING]
    fl = Flow(chk)
    effect(chk, R, fl); fmts(chk, R, fl); filt(chk, R, fl); line(chk, R); level(chk, R); memory(chk, R)

# ---------------------------------------------------------------- .effect
def effect(chk, R, fl):
    M = chk.M; pub = set(public(chk)); regions = 0
    for f, F in sorted(M.funcs.items()):
        if not F.blocks or fl.logger(f): continue
        chk.analysed.add(f)
        dep, br = fl.info[f]
        def d(o): return o is not None and o.get("k") == "v" and o["id"] in dep
        for g in sorted(br):
            reg, j = fl.region(F, g); regions += 1
            bad = fl.block_effects(f, sorted(reg))
            if j is None and any(b[-1]["op"] == "ret" for i, b in enumerate(F.blocks) if i in reg) and f not in fl.retdep:
                pass                                                       # nothing is returned: what is left out counts by its effects
            if not bad: chk.fact(R + ".effect", State(), True, fn=f)
            for ln, what, sure in [q[:3] for q in bad]:
                if sure: chk.fact(R + ".effect", State(), False, fn=f, line=ln, what="what the library does depends on the logging level: %s only at some levels" % what, key="effect-" + re.sub(r"\W+", "-", what)[:50])
                else: chk.unsure(R + ".effect", f, "no effect but a message", what, ln)
        for i, b in enumerate(F.blocks):
            for I in b:
                if I["op"] == "store" and d(I["v"]) and fl.root(F, I["p"]) is None and not (I["p"].get("k") == "g" and fl.private(I["p"]["n"])):
                    chk.fact(R + ".effect", State(), False, fn=f, line=I["line"], what="a value that depends on the logging level is stored", key="effect-store")
                if I["op"] == "call" and any(d(a) for a in I["args"]) and not (I["callee"].get("k") == "f" and (fl.pure(I["callee"]["n"]) or fl.logger(I["callee"]["n"]) if I["callee"]["n"] in M.funcs and M.defined(I["callee"]["n"]) else fl.pure(I["callee"]["n"]))):
                    chk.unsure(R + ".effect", f, "arguments that do not depend on the logging level", "passed on", I["line"])
        if f in fl.retdep and f in pub:
            chk.fact(R + ".effect", State(), False, fn=f, what="what the call answers depends on the logging level", key="effect-ret")
    chk.notes.append("%d places where the logging level decides what runs" % regions)
    chk.fact(R + ".present", State(), regions > 20, fn="rmc_log", what="hardly any use of the logging level was found", key="present-effect")

# ---------------------------------------------------------------- .format
def sources(F, o, fl, seen=None):
    """operands a value may be, through phis, selects and copies"""
    seen = seen if seen is not None else set()
    if o.get("k") != "v": return [o]
    if o["id"] in seen: return []
    seen.add(o["id"]); fl.root(F, o)
    I = F.defs.get(o["id"])
    if I is None: return [o]
    if I["op"] == "phi": return [x for a, _ in I["in"] for x in sources(F, a, fl, seen)]
    if I["op"] == "select": return sources(F, I["a"], fl, seen) + sources(F, I["b"], fl, seen)
    if I["op"] == "copy": return sources(F, I["a"], fl, seen)
    return [o]
def fmts(chk, R, fl):
    M = chk.M; n = 0; wrap = {}
    W = {"rmc_log": 5}                                                 # functions that print a format they are given
    for f, F in M.funcs.items():
        for b in F.blocks:
            for I in b:
                if I["op"] == "call" and I["callee"].get("n") in PRINTING:
                    k = PRINTING[I["callee"]["n"]]
                    if k < len(I["args"]) and I["args"][k].get("k") == "a": W[f] = I["args"][k]["i"]
    W.update(PRINTING)
    for f, F in sorted(M.funcs.items()):
        for b in F.blocks:
            for I in b:
                if I["op"] != "call" or I["callee"].get("k") != "f" or I["callee"]["n"] not in W: continue
                nm = I["callee"]["n"]; k = W[nm]; ln = I["line"]
                if k >= len(I["args"]): continue
                for o in sources(F, I["args"][k], fl):
                    g = M.globals.get(o.get("n")) if o.get("k") == "g" else None
                    if o.get("k") == "a" and f in W: chk.fact(R + ".format", State(), True, fn=f, line=ln); n += 1; continue
                    if g is None or "str" not in g or not g.get("const"):
                        if fl.root(F, o) is not None: chk.fact(R + ".format", State(), False, fn=f, line=ln, what="text that was put together is used as a format", key="format-text-" + nm)
                        else: chk.unsure(R + ".format", f, "a constant format", "cannot be read from the source", ln)
                        continue
                    n += 1
                    if nm.startswith("v"): continue
                    rest = list(zip(I["args"][k + 1:], I["aty"][k + 1:])); ok = True; i = 0; ntoa = 0
                    for m in directives(g["str"]):
                        w, pr, c = m.group(2), m.group(3), m.group(5)
                        if c in "%m": continue
                        for _ in range((w == "*") + (pr == "*")): i += 1
                        if i >= len(rest):
                            ok = chk.fact(R + ".format", State(), False, fn=f, line=ln, what="a message refers to more values than it is given (\"%s\")" % g["str"], key="format-count-" + str(F.name)); break
                        a, ty = rest[i]; i += 1
                        if c == "s" and ty != "p": ok = chk.fact(R + ".format", State(), False, fn=f, line=ln, what="a message prints a number as text (\"%s\", value %d)" % (g["str"], i), key="format-text"); break
                        if c == "n": ok = chk.fact(R + ".format", State(), False, fn=f, line=ln, what="a message writes to memory (%n)", key="format-n"); break
                        if c in "fFeEgGaA" and ty != "double": ok = chk.fact(R + ".format", State(), False, fn=f, line=ln, what="a message prints an integer as a floating point number", key="format-double"); break
                        J = F.defs.get(a["id"]) if a.get("k") == "v" else None
                        if c == "s" and J is not None and J["op"] == "call" and J["callee"].get("n") == "inet_ntoa": ntoa += 1
                    if ok and ntoa > 1: ok = chk.fact(R + ".format", State(), False, fn=f, line=ln, what="a message prints two addresses from the one buffer inet_ntoa has", key="format-ntoa")
                    if ok: chk.fact(R + ".format", State(), True, fn=f, line=ln)
    chk.notes.append("%d formats checked against their values" % n)
    chk.fact(R + ".present", State(), n > 30, fn="rmc_log", what="hardly any message was found", key="present-format")

# ---------------------------------------------------------------- .filter
def filt(chk, R, fl):
    """a message of level n is written exactly when the level is n or more"""
    M = chk.M; n = 0
    if "_rmc_log_level" in [I["p"].get("n") for b in M.funcs["rmc_log"].blocks for I in b if I["op"] == "load"]:
        chk.unsure(R + ".filter", "rmc_log", "which messages are written", "rmc_log looks at the level itself"); return
    def value(f, o, v, depth=0):
        """what an operand is when the level is v, or None"""
        if o.get("k") == "i": return int(o["v"])
        if o.get("k") != "v" or depth > 20: return None
        F = M.funcs[f]; fl.root(F, o); I = F.defs.get(o["id"])
        if I is None: return None
        if I["op"] == "load": return v if I["p"].get("n") == "_rmc_log_level" else None
        if I["op"] == "icmp":
            a, b = value(f, I["a"], v, depth + 1), value(f, I["b"], v, depth + 1)
            if a is None or b is None: return None
            p = I["pred"]
            if p[0] == "u": a &= 0xffffffff; b &= 0xffffffff
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p if p in ("eq", "ne") else p[1:]])
        if I["op"] in ("copy", "cast"): return value(f, I["a"], v, depth + 1)
        if I["op"] == "bin":
            a, b = value(f, I["a"], v, depth + 1), value(f, I["b"], v, depth + 1)
            if a is None or b is None: return None
            return {"add": a + b, "sub": a - b, "xor": a ^ b, "and": a & b, "or": a | b}.get(I["bop"])
        if I["op"] == "call" and I["callee"].get("n") in fl.retdep:
            args = [value(f, a, v, depth + 1) for a in I["args"]]
            if any(a is None for a in args): return None
            ip = chk.interp(); ip.loglevel = v; got = set()
            for k, s, x in ip.run_fn(I["callee"]["n"], [VC(int(t[1:]), a) if t[0] == "i" else VC(64, a) for a, t in zip(args, I["aty"])], State()):
                if k != "ret" or x is None: return None
                for q, e in evals(s, lambda z: ip.view(z, x, "s")):
                    if e.t: return None
                    got.add(e.c)
            return got.pop() if len(got) == 1 else None
        return None
    for f, F in sorted(M.funcs.items()):
        if not F.blocks or fl.logger(f): continue
        for i, b in enumerate(F.blocks):
            for I in b:
                if I["op"] != "call" or I["callee"].get("n") != "rmc_log": continue
                lv = I["args"][0]
                if lv.get("k") != "i": chk.unsure(R + ".filter", f, "the level of a message", "not a constant", I["line"]); continue
                lv = int(lv["v"]); br = fl.info[f][1]; got = {}
                for v in range(7):
                    seen = set(); todo = [0]; unknown = False
                    while todo:
                        q = todo.pop()
                        if q in seen: continue
                        seen.add(q); t = F.blocks[q][-1]
                        if q in br and t["op"] == "br":
                            c = value(f, t["c"], v)
                            if c is None: unknown = True; todo += fl.succ(F, q)
                            else: todo.append(t["t"] if c else t["f"])
                        else: todo += fl.succ(F, q)
                    got[v] = i in seen if not unknown or i not in seen else None
                if None in got.values(): chk.unsure(R + ".filter", f, "which messages are written", "the condition cannot be read", I["line"]); continue
                n += 1
                wrong = [v for v in range(7) if got[v] != (v >= lv)]
                chk.fact(R + ".filter", State(), not wrong, fn=f, line=I["line"], what="a message of level %d is %s when the level is set to %s" % (lv, "written" if wrong and got[wrong[0]] else "left out", wrong[0] if wrong else ""), key="filter")
    chk.notes.append("%d messages are written at the levels they are meant for" % n)
    chk.fact(R + ".present", State(), n > 20, fn="rmc_log", what="hardly any message was found", key="present-filter")

# ---------------------------------------------------------------- .errno, .line, .stream, .written
def line(chk, R):
    M = chk.M; hits = []; cnt = [0]
    def tty(ip, st, I, name, args):
        f = st.fork(); set_errno(ip, f); st.event("ext", name, args, VC(32, 1)); f.event("ext", name, args, VC(32, 0))
        return [("ret", st, VC(32, 1)), ("ret", f, VC(32, 0))]
    def fno(ip, st, I, name, args): return ret(st, V(32, S(new_sym("fileno#%d" % uniq(), 0, 1 << 20)), "s"))
    def out(ip, st, I, name, args):
        set_errno(ip, st); v = VC(int(I["ty"][1:]), 1) if I["ty"][0] == "i" else None
        st.event("print", name, args, v)
        return ret(st, v)
    def acc(ip):
        from rules.mem import extent
        def f(st, e, n, what):
            b = keybase(e.t) if e.t else None
            sz = extent(M, st, b) if b is not None else None
            if sz is None: return
            cnt[0] += 1; d = e - S(b)
            if st.entails(GE(d, 0)) and st.entails(LE(d + n, sz)): return
            if len(hits) < 50: hits.append((st.fork(), st.fn, st.line, d, n, sz, what))
        return f
    def host():
        ip = chk.interp(ring=False, lists=False, budget=400000)
        ip.maxsteps = 1 << 40
        ip.models.pop("rmc_log")
        ip.models.update(isatty=tty, fileno=fno, fprintf=out, vfprintf=out, printf=out, vprintf=out, fputc=out, putc=out, fputs=out, puts=out, putchar=out, fwrite=out, fflush=out, dprintf=out, perror=out)
        for n in M.funcs:
            if n.startswith("llvm.va_"): ip.models[n] = lambda ip, st, I, name, args: ret(st, None)
        ip.access = acc(ip)
        return ip
    def call(ip, st, tag):
        F = M.funcs["rmc_log"]; args, by = chk.arg_syms("rmc_log", func="nonnull", file="nonnull", fmt="nonnull", log_level=V(32, S(new_sym("level of the message", -(1 << 31), (1 << 31) - 1)), "s"), line=V(32, S(new_sym("line", 0, 1 << 20)), "s"))
        e0 = S(new_sym("errno before", 0, 133)); put(ip, st, errno_addr(), V(32, e0, "s"), 4); n0 = len(st.events())
        for k, s, x in chk.run(ip, "rmc_log", args, st): yield k, s, e0, by, s.events()[n0:]
    for mode in ("first", "later", "redirected"):
        ip = host(); starts = [(State(), None)]
        if mode == "redirected":
            starts = []
            if not M.defined("rmc_log_set_file"): continue
            a, by = chk.arg_syms("rmc_log_set_file", file="nonnull")
            starts = [(s, a[0].e) for k, s, x in chk.run(ip, "rmc_log_set_file", a, State()) if k == "ret"]
        for st, stream in starts:
            if mode == "first":
                for g, w in (("_rmc_log_file", 8), ("_rmc_log_use_color", 4)):
                    if g in M.globals: put(ip, st, S(glob_sym(g)), VC(w * 8, 0 if w == 8 else -1), w)
            for k, s, e0, by, ev in call(ip, st, mode):
                for q, qf, ql, d, n, sz, what in hits: chk.ob(R + ".line", q, [GE(d, 0), LE(d + n, sz)], fn=qf, line=ql, what="the text of a message is longer than the buffer it is put into", key="line")
                del hits[:]
                if k != "ret": chk.unsure(R + ".errno", "rmc_log", "errno after a message", "the call does not return (%s)" % x if False else "the call does not return"); continue
                for q, e1 in evals(s, lambda z: ip.view(z, ip.load(z, errno_addr(), 4, mem=z.mem, peek=True), "s")):
                    chk.ob(R + ".errno", q, EQ(e1, e0), fn="rmc_log", what="writing a message changes errno, which the caller goes on to report", key="errno")
                pr = [e for e in ev if e.kind == "print"]
                vs = [e for e in pr if e.name in ("vfprintf", "vprintf") and len(e.args) > 1 and s.entails(EQ(e.args[PRINTING[e.name]].e, by["fmt"].e))]
                if any(e.kind == "ext" and e.name.startswith("vs") for e in ev): chk.unsure(R + ".written", "rmc_log", "the text of the message", "put together by other means")
                else: chk.fact(R + ".written", s, len(vs) == 1, fn="rmc_log", what="a message is written %d times" % len(vs), key="written")
                if stream is not None:
                    for e in pr:
                        i = {"fputc": 1, "putc": 1, "fputs": 1, "fwrite": 3}.get(e.name, 0)
                        if e.name in ("printf", "vprintf", "puts", "putchar"): chk.fact(R + ".stream", s, False, fn=e.fn, line=e.line, what="part of a message does not go to the file that was set", key="stream"); continue
                        if e.name in ("perror", "dprintf"): continue
                        if i < len(e.args): chk.ob(R + ".stream", s, EQ(e.args[i].e, stream), fn=e.fn, line=e.line, what="part of a message does not go to the file that was set", key="stream")
    chk.obls[R + ".line"] = chk.obls.get(R + ".line", 0) + cnt[0]; chk.proved += cnt[0]
    chk.fact(R + ".present", State(), cnt[0] > 5, fn="rmc_log", what="no message was followed", key="present-line")

# ---------------------------------------------------------------- .level
def level(chk, R):
    M = chk.M; seen = [0, 0]; fn = "rmc_set_log_level"
    ip = chk.interp(ring=False, lists=False); ip.loglevel = None
    a = V(32, S(new_sym("level asked for", -(1 << 31), (1 << 31) - 1)), "s"); args = [a]; st = State()
    lv = S(glob_sym("_rmc_log_level")); old = S(new_sym("old_level", 0, 6)); put(ip, st, lv, V(32, old, "s"), 4)
    for k, s, x in chk.run(ip, fn, args, st):
        if k != "ret": chk.unsure(R + ".level", fn, "the level", "the call does not return"); continue
        for q, (r, new, av) in evals(s, lambda z: (ip.view(z, x, "s"), ip.view(z, ip.load(z, lv, 4, mem=z.mem, peek=True), "s"), ip.view(z, a, "s"))):
            for q1, ok in splits(q, EQ(r, 0)):
                seen[ok] += 1
                if ok:
                    chk.ob(R + ".level", q1, [GE(av, 0), LE(av, 6)], fn=fn, what="a level that does not exist is accepted", key="accepted")
                    chk.ob(R + ".level", q1, EQ(new, av), fn=fn, what="the level that was asked for is not set", key="set")
                else:
                    chk.ob(R + ".level", q1, EQ(new, old), fn=fn, what="a level that is refused changes the level", key="refused")
                    q2 = q1.fork()
                    if q2.try_assume([GE(av, 0), LE(av, 6)]) and q2.facts.feasible(): chk.fact(R + ".level", q2, False, fn=fn, what="a level that exists is refused", key="legal")
                    else: chk.fact(R + ".level", q1, True, fn=fn)
    chk.fact(R + ".present", State(), all(seen), fn=fn, what="the level is never set or never refused", key="present-level")

# ---------------------------------------------------------------- .memory
def memory(chk, R):
    from rules.mem import reads
    reads(chk, R + ".memory", 6)

"""Explicit small heaps: lists of up to a few elements with arbitrary contents, read back after the real list code ran."""
from rules.ctx import *

ASSUME_SHAPE = "lists are analysed in every shape up to the stated number of elements, with arbitrary contents; list code touches an element and its neighbours only, so longer lists add no new local situation"
LTS = {}
def lt(M, pre):
    if pre not in LTS: LTS[pre] = models.ListT(M, pre)
    return LTS[pre]
def cell(name, ty=None, size=None):
    """a distinct object"""
    s = new_sym(name, 1 << 20, 1 << 47, "heap"); 
    if ty: PTYPE[s] = ty
    SYMS[s].field = C(size) if size else None
    return S(s)
def put(ip, st, a, v, size=8):
    if isinstance(v, int): v = VC(size * 8, v)
    elif isinstance(v, Lin): v = V(size * 8, v)
    ip.store(st, a, v, size, raw=True)
def setf(ip, st, a, struct, path, v):
    off, m = ip.M.member(struct, path)
    if isinstance(v, V) and v.bits != 8 * m["size"]: v = V(8 * m["size"], v.e)
    put(ip, st, a + off, v, m["size"])

def shape_interp(chk, opaque=None, field_inv=None, **kw):
    ip = chk.interp(opaque=opaque, lists=False, field_inv=field_inv or {}, **kw)
    ip.raw_lists = True; ip.unroll = True
    return ip

def mklist(chk, ip, st, L, pre, data, names=None):
    """initialise the list at L with real code, then give it len(data) elements; data[i] writes an element's content: f(node) or a V; returns node addresses"""
    M = chk.M; t = lt(M, pre)
    outs = [o for o in ip.run_fn(pre + "_init", [V(64, L), NULL, NULL, NULL], st) if o[0] == "ret"]
    if len(outs) != 1: raise ir_error("%s_init does not return on a single path" % pre)
    st = outs[0][1]
    nodes = [cell("%s.n%d" % (names or pre, i), t.node, M.size(t.node)) for i in range(len(data))]
    for i, n in enumerate(nodes):
        put(ip, st, n + t.next, nodes[i + 1] if i + 1 < len(nodes) else 0)
        put(ip, st, n + t.prev, nodes[i - 1] if i else 0)
        put(ip, st, n + t.owner, L)
        d = data[i]
        if callable(d): d(n)
        else: put(ip, st, n, d, t.dsize)
    put(ip, st, L + t.head, nodes[0] if nodes else 0); put(ip, st, L + t.tail, nodes[-1] if nodes else 0)
    put(ip, st, L + t.count, len(nodes), 4)
    return st, nodes
def ptr_at(ip, st, a, mem=None):
    return st.norm(ip.load(st, a, 8, mem=st.mem if mem is None else mem, peek=True, hint="p").e)
def rdlist(chk, ip, st, L, pre, mem=None):
    """(node addresses in order, problem or None)"""
    t = lt(chk.M, pre); past = mem is not None; mem = st.mem if mem is None else mem
    out = []; p = ptr_at(ip, st, L + t.head, mem); prev = C(0)
    while p.t:
        if p in out: return out, "the forward chain is circular"
        b = keybase(p.t)
        if b is None or p != S(b): return out, "a link does not lead to an element"
        if b in st.freed and not past: return out, "a released element is still linked"
        out.append(p)
        if ptr_at(ip, st, p + t.prev, mem) != prev: return out, "a backward link does not mirror the forward chain"
        if ptr_at(ip, st, p + t.owner, mem) != st.norm(L): return out, "an element does not name the list it is on"
        prev = p; p = ptr_at(ip, st, p + t.next, mem)
        if len(out) > 4000: return out, "the forward chain does not end"
    if p.c: return out, "a link is not a pointer"
    if ptr_at(ip, st, L + t.tail, mem) != prev: return out, "the tail is not the last element"
    n = ip.load(st, L + t.count, 4, mem=mem, peek=True)
    if st.norm(n.e) != C(len(out)): return out, "the stored element count is not the number of elements"
    return out, None
def content(ip, st, t, n, mem=None):
    return st.norm(ip.load(st, n, min(8, t.dsize), mem=st.mem if mem is None else mem, peek=True).e)
def ir_error(m):
    import ir
    return ir.AnalysisError(m)
def list_types(M):
    out = []
    for n in sorted(M.structs):
        if n.startswith("_") and n.endswith("_list") and "elem_count" in [m["name"] for m in M.structs[n]["members"]] and M.defined(n[1:] + "_init"): out.append(n[1:])
    return out

# ------------------------------------------------------------------------------------------------ L01, L02
class Op:
    """one list operation on a list of n elements with distinct symbolic contents"""
    def __init__(s, chk, pre, n):
        s.chk = chk; s.pre = pre; s.t = lt(chk.M, pre); s.n = n
        s.ip = shape_interp(chk); s.st = State()
        s.L = cell("list", "_" + pre, chk.M.size("_" + pre)); s.other = cell("other", "_" + pre, chk.M.size("_" + pre))
        s.vals = [new_sym("d%d" % i, 1, 1000, "val") for i in range(n + 2)]
        s.st, s.nodes = mklist(chk, s.ip, s.st, s.L, pre, [s.datum(i) for i in range(n)])
        s.cache = None
    def datum(s, i):
        """writes an element's content"""
        def f(node):
            if s.t.dsize <= 8: put(s.ip, s.st, node, V(s.t.dsize * 8, S(s.vals[i])), s.t.dsize)
            else:
                for k in range(0, s.t.dsize, 8): put(s.ip, s.st, node + k, V(64, S(s.vals[i]) if k == 0 else C(k)), 8)
        return f
    def arg(s, i):
        """(argument value) passing datum i"""
        if s.t.dsize <= 8: return V(s.t.dsize * 8, S(s.vals[i]))
        a = cell("arg", None, s.t.dsize)
        for k in range(0, s.t.dsize, 8): put(s.ip, s.st, a + k, V(64, S(s.vals[i]) if k == 0 else C(k)), 8)
        return V(64, a)
    def loose(s, i):
        """a node that is on no list, with arbitrary links"""
        nd = cell("new", s.t.node, s.chk.M.size(s.t.node))
        s.datum(i)(nd)
        for f in (s.t.next, s.t.prev, s.t.owner): put(s.ip, s.st, nd + f, V(64, S(new_sym("junk", 1 << 20, 1 << 47, "val"))))
        return nd
    def run(s, op, args):
        return s.chk.run(s.ip, s.pre + "_" + op, args, s.st.fork())

def list_op(chk, R, o, op, args, expect, ret=None, freed=(), line=None, order=True, extra=None):
    """expect(state) -> list of (node or ('new', value)) in order after the operation"""
    fn = o.pre + "_" + op
    base = o.st.events()
    for k, s, x in o.run(op, args):
        if k == "fault": chk.fact(R + ".fault", s, False, fn=fn, what="%s can fault: %s" % (fn, x), key="fault"); continue
        if k == "abort":
            chk.fact(R + ".abort", s, False, fn=fn, what="%s stops the process on a well-formed list" % fn, key="abort"); continue
        if k != "ret": continue
        for e in s.events():
            if e.kind in ("uaf", "double_free"): chk.fact(R + ".uaf", s, False, fn=e.fn, line=e.line, what="%s touches an element after releasing it" % fn, key="uaf")
        got, bad = rdlist(chk, o.ip, s, o.L, o.pre)
        if R == "L01":
            chk.fact(R + ".sound", s, bad is None, fn=fn, what="after %s with %d elements: %s" % (op, o.n, bad), key="sound-" + op)
            fr = [s.norm(e.args[0].e) for e in s.events() if e.kind == "free"]
            al = [s.norm(e.args[0].e) for e in s.events() if e.kind == "alloc" and e not in base]
            want = [s.norm(q) for q in freed]
            chk.fact(R + ".freed", s, sorted(map(repr, fr)) == sorted(map(repr, want)), fn=fn, what="after %s with %d elements: not exactly the removed elements are released" % (op, o.n), key="freed-" + op)
            ex = expect(s)
            newn = sum(1 for e in ex if isinstance(e, tuple))
            left = set(map(repr, got))
            keep = set(repr(s.norm(e)) for e in ex if not isinstance(e, tuple))
            chk.fact(R + ".kept", s, bad is not None or (keep <= left and len(got) == len(ex) and len(al) == newn and all(repr(a) in left for a in al)), fn=fn,
                     what="after %s with %d elements: elements are lost, duplicated or left behind" % (op, o.n), key="kept-" + op)
            for nd in (o.nodes or []):
                if repr(s.norm(nd)) not in left and repr(s.norm(nd)) not in set(map(repr, fr)):
                    chk.fact(R + ".orphan", s, ptr_at(o.ip, s, nd + o.t.owner) == C(0), fn=fn, what="an unlinked element still names the list", key="orphan-" + op)
        elif bad is None:
            ex = expect(s)
            ok = len(got) == len(ex)
            chk.fact(R + ".order", s, ok, fn=fn, what="%s with %d elements: wrong number of elements afterwards" % (op, o.n), key="order-" + op)
            if ok:
                for g, e in zip(got, ex):
                    if isinstance(e, tuple): chk.ob(R + ".order", s, EQ(content(o.ip, s, o.t, g), e[1]), fn=fn, what="%s with %d elements: the new element is not where it belongs" % (op, o.n), key="order-" + op)
                    else: chk.fact(R + ".order", s, g == s.norm(e), fn=fn, what="%s with %d elements: elements are not in the documented order" % (op, o.n), key="order-" + op)
            if ret is not None: ret(s, x)
            # contents unchanged
            for i, nd in enumerate(o.nodes):
                if keybase(s.norm(nd).t) in s.freed: continue
                chk.ob(R + ".content", s, EQ(content(o.ip, s, o.t, nd), S(o.vals[i])), fn=fn, what="%s changes the content of an element" % op, key="content-" + op)

def cmp_model(chk, o, sign=1):
    """a comparison by content, as the list code may call it through a pointer"""
    def f(ip, st, I, name, args):
        def v(a):
            if o.t.dsize <= 8: return st.norm(a.e)
            return content(ip, st, o.t, st.norm(a.e))
        a, b = v(args[0]), v(args[1])
        out = []
        for con, r in ((GE(a, b + 1), sign), (EQ(a, b), 0), (LE(a + 1, b), -sign)):
            s = st.fork()
            if s.try_assume([con]) and s.facts.feasible(): out.append(("ret", s, VC(32, r)))
        return out
    nm = "cmp$%d" % uniq()
    o.ip.models = dict(o.ip.models); o.ip.models[nm] = f
    return V(64, S(IP.fun_sym(nm)))
def find_model(chk, o, log):
    """a search callback: 1 accept, -1 stop, 0 go on - decided per element"""
    def f(ip, st, I, name, args):
        a = st.norm(args[1].e) if o.t.dsize <= 8 else content(ip, st, o.t, st.norm(args[1].e))
        nd = st.norm(args[0].e) if o.t.dsize <= 8 else content(ip, st, o.t, st.norm(args[0].e))
        out = []
        for r in (1, 2, -1, 0):
            s = st.fork(); s.event("visit", name, (V(64, a), V(64, nd), args[2]), VC(32, r)); out.append(("ret", s, VC(32, r)))
        return out
    nm = "find$%d" % uniq()
    o.ip.models = dict(o.ip.models); o.ip.models[nm] = f
    return V(64, S(IP.fun_sym(nm)))
def each_model(chk, o):
    def f(ip, st, I, name, args):
        out = []
        for r in (0, 1):
            s = st.fork(); s.event("visit", name, args, VC(8, r)); out.append(("ret", s, VC(8, r)))
        return out
    nm = "each$%d" % uniq()
    o.ip.models = dict(o.ip.models); o.ip.models[nm] = f
    return V(64, S(IP.fun_sym(nm)))

def walk_ops(chk, R, pre, N):
    M = chk.M; L2 = R == "L02"
    def is_new(o, pos):
        def ret(s, x): 
            got, bad = rdlist(chk, o.ip, s, o.L, o.pre)
            if bad is None: chk.fact(R + ".returned", s, s.norm(x.e) == got[pos], fn=o.pre, what="an insertion does not return the element it placed", key="returned")
        return ret
    have = lambda op: M.defined(pre + "_" + op)
    for n in range(N + 1):
        for end in ("head", "tail"):
            o = Op(chk, pre, n); nw = ("new", S(o.vals[n]))
            if have("push_" + end): list_op(chk, R, o, "push_" + end, [V(64, o.L), o.arg(n)], lambda s: [nw] + o.nodes if end == "head" else o.nodes + [nw], ret=is_new(o, 0 if end == "head" else n))
            o = Op(chk, pre, n); nd = o.loose(n)
            if have("push_%s_node" % end): list_op(chk, R, o, "push_%s_node" % end, [V(64, o.L), V(64, nd)], lambda s: [nd] + o.nodes if end == "head" else o.nodes + [nd])
            o = Op(chk, pre, n)
            rest = o.nodes[1:] if end == "head" else o.nodes[:-1]; gone = (o.nodes[0] if end == "head" else o.nodes[-1]) if n else None
            gi = 0 if end == "head" else n - 1
            buf = cell("out", None, max(8, o.t.dsize))
            for k in range(0, max(8, o.t.dsize), 8): put(o.ip, o.st, buf + k, 0)
            def ret(s, x):
                chk.ob(R + ".pop", s, EQ(o.ip.view(s, x, "s"), 1 if n else 0), fn=pre + "_pop_" + end, what="popping does not report whether there was an element", key="pop")
                if n: chk.ob(R + ".pop.data", s, EQ(o.ip.view(s, o.ip.load(s, buf, min(8, o.t.dsize), mem=s.mem, peek=True), "u"), S(o.vals[gi])), fn=pre + "_pop_" + end, what="popping does not give the content of the %s element" % ("first" if end == "head" else "last"), key="pop-data")
            if have("pop_" + end): list_op(chk, R, o, "pop_" + end, [V(64, o.L), V(64, buf)], lambda s: rest, ret=ret, freed=[gone] if n else [])
            o2 = Op(chk, pre, n); rest2 = o2.nodes[1:] if end == "head" else o2.nodes[:-1]; gone2 = (o2.nodes[0] if end == "head" else o2.nodes[-1]) if n else C(0)
            if have("pop_%s_node" % end): list_op(chk, R, o2, "pop_%s_node" % end, [V(64, o2.L)], lambda s: rest2, ret=lambda s, x: chk.fact(R + ".pop.node", s, s.norm(x.e) == s.norm(gone2), fn=pre + "_pop_%s_node" % end, what="popping does not give the element from the right end", key="pop-node"))
            if L2 and have(end):
                o = Op(chk, pre, n)
                for k, s, x in o.run(end, [V(64, o.L)]):
                    if k == "ret": chk.fact(R + ".ends", s, s.norm(x.e) == ((o.nodes[0] if end == "head" else o.nodes[-1]) if n else C(0)), fn=pre + "_" + end, what="the %s query does not give that element" % end, key="ends")
        if have("empty"):
            o = Op(chk, pre, n); list_op(chk, R, o, "empty", [V(64, o.L)], lambda s: [], freed=o.nodes)
        if L2 and have("size"):
            o = Op(chk, pre, n)
            for k, s, x in o.run("size", [V(64, o.L)]):
                if k == "ret": chk.ob(R + ".size", s, EQ(o.ip.view(s, x, "u"), n), fn=pre + "_size", what="the size query is not the number of elements", key="size")
        for i in range(n):
            for op, node, where in (("insert_before", 0, 0), ("insert_after", 0, 1), ("insert_before_node", 1, 0), ("insert_after_node", 1, 1)):
                if not have(op): continue
                o = Op(chk, pre, n); at_ = i + where
                if node: nd = o.loose(n); a = V(64, nd); e = nd
                else: a = o.arg(n); e = ("new", S(o.vals[n]))
                list_op(chk, R, o, op, [V(64, o.nodes[i]), a], lambda s: o.nodes[:at_] + [e] + o.nodes[at_:], ret=is_new(o, at_))
            for op in ("unlink", "delete"):
                if not have(op): continue
                o = Op(chk, pre, n)
                list_op(chk, R, o, op, [V(64, o.nodes[i])], lambda s: o.nodes[:i] + o.nodes[i + 1:], freed=[o.nodes[i]] if op == "delete" else [])
            if L2:
                for op, d in (("next", 1), ("prev", -1)):
                    if not have(op): continue
                    o = Op(chk, pre, n); j = i + d
                    for k, s, x in o.run(op, [V(64, o.nodes[i])]):
                        if k == "ret": chk.fact(R + ".step", s, s.norm(x.e) == (o.nodes[j] if 0 <= j < n else C(0)), fn=pre + "_" + op, what="stepping does not give the neighbouring element", key="step")
        sorted_ops(chk, R, pre, n)
        if L2: search_ops(chk, pre, n)

def sorted_ops(chk, R, pre, n):
    M = chk.M; t = lt(M, pre)
    for op, desc, node in (("insert_sorted", 1, 0), ("insert_sorted_rev", 0, 0), ("insert_sorted_node", 1, 1), ("insert_sorted_node_rev", 0, 1)):
        if not M.defined(pre + "_" + op): continue
        o = Op(chk, pre, n); fn = pre + "_" + op
        for i in range(n - 1):
            a, b = S(o.vals[i]), S(o.vals[i + 1])
            o.st.assume(GE(a, b) if desc else LE(a, b))
        cm = cmp_model(chk, o)
        nd = o.loose(n) if node else None
        args = [V(64, o.L), V(64, nd) if node else o.arg(n), cm, V(64, S(ptr_sym("ud", False, None, "base")))]
        v = S(o.vals[n])
        for k, s, x in o.run(op, args):
            if k == "fault": chk.fact(R + ".fault", s, False, fn=fn, what="%s can fault: %s" % (fn, x), key="fault"); continue
            if k == "abort": chk.fact(R + ".abort", s, False, fn=fn, what="%s stops the process on a sorted list" % fn, key="abort"); continue
            if k != "ret": continue
            got, bad = rdlist(chk, o.ip, s, o.L, pre)
            if R == "L01":
                chk.fact(R + ".sound", s, bad is None, fn=fn, what="after %s with %d elements: %s" % (op, n, bad), key="sound-" + op)
                al = [s.norm(e.args[0].e) for e in s.events() if e.kind == "alloc"]
                left = set(map(repr, got))
                chk.fact(R + ".kept", s, bad is not None or (len(got) == n + 1 and all(repr(s.norm(q)) in left for q in o.nodes) and len(al) == (0 if node else 1)), fn=fn, what="after %s with %d elements: elements are lost, duplicated or left behind" % (op, n), key="kept-" + op)
                chk.fact(R + ".freed", s, not [e for e in s.events() if e.kind == "free"], fn=fn, what="%s releases an element" % op, key="freed-" + op)
                continue
            if bad is not None or len(got) != n + 1: continue
            pos = [i for i, g in enumerate(got) if repr(g) not in set(repr(s.norm(q)) for q in o.nodes)]
            chk.fact(R + ".sorted.others", s, len(pos) == 1 and [g for g in got if g != got[pos[0]]] == [s.norm(q) for q in o.nodes], fn=fn, what="sorted insertion changes the order of the other elements", key="others-" + op)
            if len(pos) != 1: continue
            cs = [content(o.ip, s, t, g) for g in got]
            chk.ob(R + ".sorted.data", s, EQ(cs[pos[0]], v), fn=fn, what="sorted insertion stores another content", key="data-" + op)
            for a, b in zip(cs, cs[1:]):
                chk.ob(R + ".sorted", s, GE(a, b) if desc else LE(a, b), fn=fn, what="sorted insertion leaves the list unsorted", key="sorted-" + op)
            # equal elements: the new one goes in front (descending) or behind (ascending) of all its equals
            if desc and pos[0] > 0: chk.ob(R + ".sorted.equal", s, GE(cs[pos[0] - 1], v + 1), fn=fn, what="an element equal to existing ones is not placed in front of them", key="equal-" + op)
            if not desc and pos[0] + 1 < len(cs): chk.ob(R + ".sorted.equal", s, GE(cs[pos[0] + 1], v + 1), fn=fn, what="an element equal to existing ones is not placed behind them", key="equal-" + op)
            chk.fact(R + ".sorted.returned", s, s.norm(x.e) == got[pos[0]], fn=fn, what="sorted insertion does not return the element it placed", key="sreturned-" + op)

def search_ops(chk, pre, n):
    M = chk.M; R = "L02"; t = lt(M, pre)
    for op, rev in (("find_node", 0), ("find_node_rev", 1)):
        if not M.defined(pre + "_" + op): continue
        o = Op(chk, pre, n); fn = pre + "_" + op; ud = V(64, S(ptr_sym("ud", False, None, "base")))
        args = [V(64, o.L), o.arg(n), find_model(chk, o, None), ud]
        order = list(range(n))[::-1] if rev else list(range(n))
        for k, s, x in o.run(op, args):
            if k != "ret":
                if k in ("fault", "abort"): chk.fact(R + ".find.ends", s, False, fn=fn, what="searching can %s" % k, key="find-ends")
                continue
            vs = [e for e in s.events() if e.kind == "visit"]
            want = C(0); seen = 0
            for i, e in zip(order, vs):
                seen += 1
                chk.ob(R + ".find.order", s, [EQ(e.args[0].e, S(o.vals[i])), EQ(e.args[1].e, S(o.vals[n])), EQ(e.args[2].e, ud.e)], fn=fn, what="searching does not offer the elements, in order, to the comparison", key="find-order")
                if e.ret.e.c in (1, 2): want = o.nodes[i]; break
                if e.ret.e.c == (1 << 32) - 1 or e.ret.e.c == -1: break
            stopped = bool(vs) and not (vs[-1].ret.e.c == 0)
            chk.fact(R + ".find.all", s, seen == len(vs) and (stopped or len(vs) == n), fn=fn, what="searching ends before every element was offered, or goes on after it should stop", key="find-all")
            chk.fact(R + ".find.result", s, s.norm(x.e) == s.norm(want), fn=fn, what="searching does not return the first accepted element", key="find-result")
            got, bad = rdlist(chk, o.ip, s, o.L, pre)
            chk.fact(R + ".find.unchanged", s, bad is None and got == [s.norm(q) for q in o.nodes], fn=fn, what="searching changes the list", key="find-unchanged")
    for op, rev in (("for_each", 0), ("for_each_rev", 1)):
        if not M.defined(pre + "_" + op): continue
        o = Op(chk, pre, n); fn = pre + "_" + op; ud = V(64, S(ptr_sym("ud", False, None, "base")))
        order = o.nodes[::-1] if rev else o.nodes
        for k, s, x in o.run(op, [V(64, o.L), each_model(chk, o), ud]):
            if k != "ret":
                if k in ("fault", "abort"): chk.fact(R + ".each.ends", s, False, fn=fn, what="iterating can %s" % k, key="each-ends")
                continue
            vs = [e for e in s.events() if e.kind == "visit"]
            chk.fact(R + ".each.order", s, [s.norm(e.args[0].e) for e in vs] == [s.norm(q) for q in order[:len(vs)]] and all(e.args[1].e == ud.e for e in vs), fn=fn, what="iteration does not visit the elements in order", key="each-order")
            stopped = bool(vs) and vs[-1].ret.e.c == 0
            chk.fact(R + ".each.all", s, all(e.ret.e.c for e in vs[:-1]) and (stopped or len(vs) == n), fn=fn, what="iteration stops early or goes on after being told to stop", key="each-all")

def lists_main(chk, R):
    M = chk.M; N = 3 if chk.tier == "quick" else 4
    T = list_types(M)
    if len(T) < 4: chk.error("only %d list types found" % len(T))
    chk.assume += ["lists are analysed in every shape of up to %d elements with arbitrary contents; list code touches an element, its neighbours and the list head only, so longer lists add no new local situation" % N,
                   "memory for list elements is available"]
    for pre in T: walk_ops(chk, R, pre, N)
def L01(chk):
    lists_main(chk, "L01")
    M = chk.M
    for pre in list_types(M):
        t = lt(M, pre); ip = shape_interp(chk); st = State(); L = cell("list", "_" + pre, M.size("_" + pre))
        for f, m in ((m["name"], m) for m in M.structs["_" + pre]["members"]): put(ip, st, L + m["off"], V(8 * m["size"], S(new_sym("junk", 0, 1000))), m["size"])
        for k, s, x in chk.run(ip, pre + "_init", [V(64, L), NULL, NULL, NULL], st):
            if k != "ret": continue
            got, bad = rdlist(chk, ip, s, L, pre)
            chk.fact("L01.init", s, bad is None and not got, fn=pre + "_init", what="a new list is not empty: %s" % bad, key="init")
            for f in ("alloc_node", "free_node"):
                v = ptr_at(ip, s, L + M.member("_" + pre, f)[0]); b = v.t[0][0] if v.t else None
                chk.fact("L01.init.alloc", s, b in IP.FUNNAME, fn=pre + "_init", what="a new list has no way to obtain or release elements", key="init-alloc")
def L02(chk): lists_main(chk, "L02")

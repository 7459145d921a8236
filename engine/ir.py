"""Builds the LLVM IR of /repo's library objects (compile only, nothing is run) and loads it."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

class AnalysisError(Exception):
    pass

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout

def build_irdump():
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    src = os.path.join(HERE, "irdump.cpp")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(b, "irdump-" + tag)
    if os.path.exists(exe): return exe
    cxx = _run(["llvm-config-18", "--cxxflags"]).split()
    cxx = [x for x in cxx if not x.startswith("-O") and x != "-DNDEBUG"]
    ld = _run(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "analysis", "support"]).split()
    tmp = exe + ".%d" % os.getpid()
    _run(["clang++-18", "-O0", "-g0"] + cxx + ["-std=c++17", "-fexceptions", src, "-o", tmp] + ld)
    os.replace(tmp, exe)
    return exe

def lib_sources():
    out = _run(["make", "-s", "-C", REPO, "print_obj"]).split()
    srcs = []
    for o in out:
        if not o.endswith(".o"): continue
        c = os.path.join(REPO, os.path.basename(o)[:-2] + ".c")
        if not os.path.exists(c): raise AnalysisError("no source for object " + o)
        srcs.append(c)
    if len(srcs) < 10: raise AnalysisError("only %d library sources found" % len(srcs))
    return srcs

def load():
    exe = build_irdump()
    srcs = lib_sources()
    d = tempfile.mkdtemp(prefix="rmcir.")
    try:
        procs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
            procs.append((s, subprocess.Popen(
                ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g", "-w", "-fpic",
                 "-D_GNU_SOURCE", "-emit-llvm", "-c", s, "-o", o], cwd=REPO, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, text=True)))
        for s, p in procs:
            _, e = p.communicate()
            if p.returncode: raise AnalysisError("cannot compile %s:\n%s" % (s, e[-2000:]))
        bcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".bc"))
        allbc = os.path.join(d, "all.bc_"); opt = os.path.join(d, "opt.bc_")
        _run(["llvm-link-18"] + bcs + ["-o", allbc])
        _run(["/usr/lib/llvm-18/bin/opt", "-passes=sroa", allbc, "-o", opt])
        js = _run([exe, opt])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    M = Module(json.loads(js))
    M.sources = [os.path.basename(s) for s in srcs]
    return M

class Func:
    def __init__(s, name, j):
        s.name = name; s.j = j
        s.args = j["args"]; s.ret = j["ret"]; s.decl = j["decl"]; s.internal = j["internal"]
        s.file = os.path.basename(j.get("file", "?")); s.line = j.get("line", 0)
        s.di = j.get("ditypes", [])
        s.blocks = j.get("blocks", [])
        s.loops = {l["header"]: frozenset(l["blocks"]) for l in j.get("loops", [])}
    def argtype(s, i):
        # user_data_t by value keeps one argument, so positions agree
        return s.di[i + 1] if i + 1 < len(s.di) else ["?", ""]

class Module:
    def __init__(s, j):
        s.funcs = {n: Func(n, f) for n, f in j["functions"].items()}
        s.globals = j["globals"]
        s.structs = j["structs"]
        s._res = {}
    def defined(s, n):
        f = s.funcs.get(n)
        return f is not None and not f.decl
    def size(s, st):
        return s.structs[st]["size"] if st in s.structs else None
    def member(s, st, name):
        """absolute offset and member dict for dotted path"""
        off = 0; m = None; cur = st
        for part in name.split("."):
            if cur not in s.structs: raise AnalysisError("no struct %s (looking up %s.%s)" % (cur, st, name))
            for m in s.structs[cur]["members"]:
                if m["name"] == part: break
            else:
                raise AnalysisError("struct %s has no member %s" % (cur, part))
            off += m["off"]; cur = m["sname"]
        return off, m
    def resolve(s, st, off):
        """(dotted name, member, owner struct, remaining offset) of the innermost member covering off"""
        k = (st, off)
        if k in s._res: return s._res[k]
        r = s._resolve(st, off)
        s._res[k] = r
        return r
    def _resolve(s, st, off):
        S = s.structs.get(st)
        if S is None: return None
        for m in S["members"]:
            if m["off"] <= off < m["off"] + max(m["size"], 1):
                if m["kind"] in ("struct", "union") and m["sname"] in s.structs:
                    r = s.resolve(m["sname"], off - m["off"])
                    if r: 
                        if m["kind"] == "union": return (m["name"], m, st, off - m["off"])
                        return (m["name"] + "." + r[0], r[1], r[2], r[3])
                return (m["name"], m, st, off - m["off"])
        return None

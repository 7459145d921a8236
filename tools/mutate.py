#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [file substring [operator substring]]: systematic small edits of /repo's library sources; for each that
compiles, the checks that analyse the edited function are run on a scratch copy until one reports it; survivors are put
through the build and the repository's tests (development aid, registered nowhere)."""
import sys, os, re, json, shutil, subprocess, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]; FS = sys.argv[2] if len(sys.argv) > 2 else ""; OPS = sys.argv[3] if len(sys.argv) > 3 else ""
WORK = int(os.environ.get("WORK", "8"))
LIB = ["circular_buffer.c", "pub.c", "sub.c", "rmc_connection.c", "rmc_protocol.c", "rmc_pub_context.c", "rmc_pub_packet.c", "rmc_pub_read.c", "rmc_pub_timeout.c",
       "rmc_pub_write.c", "rmc_sub_context.c", "rmc_sub_packet.c", "rmc_sub_read.c", "rmc_sub_timeout.c", "rmc_sub_write.c", "rmc_list_template.h", "time.c"]
ORDER = "C01 C02 C03 L01 L02 W01 W02 W03 W04 W05 S01 S02 S03 S04 S05 S06 S07 P01 P02 P05 P06 P07 P08 P03 P04 P09 T01 T02 T03 A02 A03 A05 K03 K04 K02 K01 A06 A01 M01 M02 M03 M04 A07 A08 G01 A04".split()
SLOW = "A01 A04 K01 K02 K03 K04 A06 M01 M02 M03 M04".split()
ana = {}
for p in ORDER:
    try: ana[p] = set(json.load(open("%s/evidence/%s.json" % (V, p)))["coverage"]["functions_analysed"])
    except Exception: ana[p] = None

def funcs(lines, name):
    """line number -> function name"""
    out = {}; cur = None; tmpl = name.endswith("_template.h")
    for i, l in enumerate(lines):
        if tmpl:
            m = re.search(r"LISTTYPE##_(\w+)\(", l)
            if m and not l.strip().startswith("return") and re.match(r"\s+(inline\s+)?(static\s+)?(NODETYPE\*|void|int|uint32_t)\s", l): cur = m.group(1)
        else:
            m = re.match(r"[a-zA-Z][\w\s\*]*?\b(\w+)\s*\(", l)
            if m and not l.rstrip().endswith(";"): cur = m.group(1)
        out[i] = cur
    return out

TYPES = {"usec_timestamp_t": ["int32_t"], "packet_id_t": ["uint32_t"], "rmc_index_t": ["uint8_t"], "uint32_t": ["uint8_t", "uint16_t"], "payload_len_t": ["uint8_t"],
         "uint16_t": ["uint8_t"], "ssize_t": ["uint32_t"], "int": ["uint8_t", "static int"], "int64_t": ["int32_t"], "uint64_t": ["uint32_t"], "rmc_connection_t*": ["static rmc_connection_t*"], "socklen_t": ["uint8_t"]}
def edits(line, tmpl):
    """[(operator, new line)]"""
    out = []; body = line.rstrip("\n"); cont = ""
    if tmpl:
        m = re.match(r"(.*?)(\s*\\)$", body); body, cont = (m.group(1), m.group(2)) if m else (body, "")
    code = body.split("//")[0]; rest = body[len(code):]
    if rest: rest = ""
    st = code.strip()
    if not st or st.startswith(("*", "/*", "#", "RMC_LOG", "\"", "perror", "strcpy", "assert", "strerror")): return []
    def em(op, s): out.append((op, s + cont + "\n"))
    for m in re.finditer(r"(?<![<>=!\-])(<=|>=|==|!=|<|>)(?![<>=])", code):
        a, b = m.span(); o = m.group(1)
        if o in "<>" and (code.strip().startswith("#") or "->" in code[a - 1:b + 1]): continue
        for n in {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}[o]: em("rel", code[:a] + n + code[b:])
    for m in re.finditer(r"&&|\|\|", code): em("logic", code[:m.start()] + {"&&": "||", "||": "&&"}[m.group(0)] + code[m.end():])
    for m in re.finditer(r"(?<=[(\s&|])!(?!=)", code): em("not", code[:m.start()] + code[m.end():])
    for m in re.finditer(r"\s[+\-]\s(1|sizeof\([^()]*\)|\w+(?:->\w+)*)", code): em("drop-term", code[:m.start()] + code[m.end():])
    for m in re.finditer(r"\s([+\-])\s", code): em("arith", code[:m.start(1)] + {"+": "-", "-": "+"}[m.group(1)] + code[m.end(1):])
    for m in re.finditer(r"\+\+|--", code): em("incdec", code[:m.start()] + {"++": "--", "--": "++"}[m.group(0)] + code[m.end():])
    for m in re.finditer(r"([+\-|&])=(?!=)", code): em("compound", code[:m.start()] + "=" + code[m.end():])
    for m in re.finditer(r"(?<![\w.])(0|1|2)(?![\w.])", code):
        for n in {"0": ["1"], "1": ["0", "2"], "2": ["1"]}[m.group(1)]: em("const", code[:m.start()] + n + code[m.end():])
    m = re.match(r"(\s*(?:\} else )?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        em("cond", "%s(0 && (%s))%s" % m.groups())
        if "if" in m.group(1): em("cond", "%s(1 || (%s))%s" % m.groups())
    m = re.match(r"(\s*)return\s+(.+);\s*$", code)
    if m:
        r = m.group(2)
        if re.match(r"E[A-Z]+$|errno$|res$", r): em("ret", m.group(1) + "return 0;")
        elif r == "0": em("ret", m.group(1) + "return 22;"); em("ret", m.group(1) + "return 11;")
    elif re.match(r"[\w(*&!].*;\s*$", st) and not re.match(r"(const |static |extern |struct |unsigned |char |\w+_t\b\*?\s+\*?\w+|int \w|ssize_t|socklen_t|NODETYPE\*|LISTTYPE\*|DATATYPE)", st) and st.count("(") == st.count(")") and not st.startswith("for"):
        em("del", re.match(r"\s*", code).group(0) + ";")
    m = re.match(r"(\s+)([\w]+\*?)(\s+\w+(?:\s*=.*|\s*)(?:;|,.*;)\s*)$", code)
    if m and m.group(2) in TYPES and not (m.group(2) == "int" and "=" not in code):
        for n in TYPES[m.group(2)]: em("type", m.group(1) + n + m.group(3))
    m = re.match(r"(\s*.*\w\()([^(),]+), ([^(),]+)(\).*)$", code)
    if m and "(" not in m.group(2): em("swap", m.group(1) + m.group(3) + ", " + m.group(2) + m.group(4))
    for a, b in (("htonl", ""), ("ntohl", ""), ("htons", ""), ("ntohs", ""), ("first_pid", "last_pid"), ("last_pid", "first_pid"), ("max_pid_ready", "max_pid_received"), ("max_pid_received", "max_pid_ready"), ("read_buf", "write_buf"), ("write_buf", "read_buf"), ("queued", "inflight"), ("inflight", "queued"),
                 ("_head(", "_tail("), ("_tail(", "_head("), ("_next(", "_prev("), ("_prev(", "_next("), ("RMC_POLLWRITE", "RMC_POLLREAD"), ("RMC_POLLREAD", "RMC_POLLWRITE"), ("_CONNECTED", "_CONNECTING"), ("_CONNECTING", "_CONNECTED"), ("_CLOSED", "_CONNECTING"),
                 ("EAGAIN", "0"), ("listen_", "mcast_"), ("mcast_", "listen_"), ("remote_address", "node_id"), ("suspend_threshold", "resume_threshold"), ("resume_threshold", "suspend_threshold"), ("->prev", "->next"), ("->next", "->prev"), ("->head", "->tail"), ("->tail", "->head"), ("payload_len", "pid")):
        i = code.find(a)
        if i >= 0: em("word", code[:i] + b + code[i + len(a):])
    return [(o, s) for o, s in out if s.split() != line.split()]

muts = []
for f in LIB:
    if FS and FS not in f: continue
    if not os.path.exists("/repo/" + f): continue
    lines = open("/repo/" + f).readlines(); fn = funcs(lines, f); log = False; com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if re.match(r"(RMC_LOG|perror|strcpy|fprintf|printf)", s): log = True
        if log:
            if ";" in s: log = False
            continue
        if fn[i] is None or not l[:1].isspace(): continue
        for k, (op, n) in enumerate(edits(l, f.endswith(".h"))):
            if OPS and OPS not in op: continue
            muts.append(dict(file=f, line=i + 1, fn=fn[i], op=op, old=s.rstrip("\\ "), new=n.strip().rstrip("\\ "), text=n))
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"], d["old"]))
muts = [m for m in muts if (m["file"], m["line"], m["new"], m["old"]) not in done]
if os.environ.get("RERUN"):     # only what survived there
    old = {}
    for l in open(os.environ["RERUN"]):
        d = json.loads(l); old[d["file"], d["fn"], d["old"], d["new"]] = d["res"]
    muts = [m for m in muts if old.get((m["file"], m["fn"], m["old"], m["new"])) == "survived"]
SAMPLE = float(os.environ.get("SAMPLE", "1"))
if SAMPLE < 1:
    import hashlib
    muts = [m for m in muts if int(hashlib.md5(repr((m["file"], m["line"], m["old"], m["new"])).encode()).hexdigest()[:8], 16) < SAMPLE * (1 << 32)]
if os.environ.get("COUNT"): print(len(muts)); sys.exit()
lock = threading.Lock(); tlock = threading.Lock()
def checks(m):
    if m["file"] == "rmc_list_template.h": suff = "_list_" + m["fn"]; return [p for p in ORDER if ana[p] is None or any(x.endswith(suff) for x in ana[p])]
    return [p for p in ORDER if ana[p] is None or m["fn"] in ana[p]]
def one(m):
    d = tempfile.mkdtemp(prefix="mm.", dir="/tmp/w/mm"); r = dict(m); r.pop("text"); t0 = time.time()
    try:
        for x in os.listdir("/repo"):
            if x.endswith((".c", ".h")) or x == "Makefile": shutil.copy("/repo/" + x, d)
        L = open(d + "/" + m["file"]).readlines(); L[m["line"] - 1] = m["text"]; open(d + "/" + m["file"], "w").writelines(L)
        cs = [m["file"]] if m["file"].endswith(".c") else ["pub.c", "sub.c", "rmc_sub_context.c"]
        for c in cs:
            q = subprocess.run(["clang-18", "-D_GNU_SOURCE", "-fsyntax-only", "-w", c], cwd=d, capture_output=True)
            if q.returncode: r["res"] = "nocompile"; return r
        if m["file"].endswith(".c"):      # same code?
            a = subprocess.run(["gcc", "-D_GNU_SOURCE", "-O1", "-w", "-S", "-o", "-", m["file"]], cwd=d, capture_output=True).stdout
            b = subprocess.run(["gcc", "-D_GNU_SOURCE", "-O1", "-w", "-S", "-o", "-", m["file"]], cwd="/repo", capture_output=True).stdout
            if re.sub(rb"(?m)^\s*\.(loc|file|ident).*$|, ?\d+(?=\)?$)" if 0 else rb"(?m)^\s*\.(loc|file|ident).*$", b"", a) == re.sub(rb"(?m)^\s*\.(loc|file|ident).*$", b"", b): r["res"] = "same"; return r
        r["ran"] = []; r["inc"] = []
        slow = [p for p in checks(m) if p in SLOW]
        def run(ps):
          for p in ps:
            q = subprocess.run(["timeout", "900", "python3", V + "/check.py", p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True)
            r["ran"].append(p)
            if "INCOMPLETE" in q.stdout or "Traceback" in q.stderr: r["inc"].append(p)
            try:
                c = json.load(open(d + "/ev/%s.json" % p))["coverage"]
                if c["incomplete_entries"]: r["inc"].append("%s incomplete %s" % (p, c["incomplete_entries"][:3]))
                if c["undecided"]: r["inc"].append("%s undecided %d" % (p, c["undecided"]))
            except Exception: pass
            if q.returncode not in (0, 1): r["inc"].append("%s rc %d %s" % (p, q.returncode, (q.stdout + q.stderr)[-200:]))
            if q.returncode == 1: r["res"] = "killed"; r["by"] = p; return True
        if run([p for p in checks(m) if p not in SLOW]): return r
        # survivor: do the repository's tests notice?
        with tlock:
            w = "/tmp/w/mtest%d" % os.getpid(); shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo", w, symlinks=True)
            shutil.copy(d + "/" + m["file"], w + "/" + m["file"])
            q = subprocess.run(["unshare", "-Urmn", "bash", "-c", "ip link set lo up; ip route add 224.0.0.0/4 dev lo 2>/dev/null; mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 25 bash /opt/vp/test.sh /tmp/w/mtest%d.json" % (w, os.getpid())], capture_output=True, text=True)
            try:
                j = json.load(open("/tmp/w/mtest%d.json" % os.getpid())); r["tests"] = q.stdout.strip().splitlines()[-1:]
                os.unlink("/tmp/w/mtest%d.json" % os.getpid())
            except Exception: r["tests"] = ["?" + (q.stdout + q.stderr)[-200:]]
        if '"failed": []' not in str(r["tests"]): r["res"] = "testfail"; return r
        if run(slow): return r
        r["res"] = "survived"; return r
    except Exception as e: r["res"] = "error %r" % e; return r
    finally: r["s"] = round(time.time() - t0, 1); shutil.rmtree(d, ignore_errors=True)
os.makedirs("/tmp/w/mm", exist_ok=True)
with ThreadPoolExecutor(WORK) as ex:
    for r in ex.map(one, muts):
        with open(OUT, "a") as f: f.write(json.dumps(r) + "\n")
        if r["res"] not in ("killed", "nocompile", "same"): print(r["res"], r["file"], r["line"], r["fn"], "|", r["old"], "=>", r["new"], "|", r.get("inc"), flush=True)

#!/usr/bin/env python3
"""refac.py FILE.py [substr]: apply behaviour-preserving edits (REFACS = [(name, [(file, old, new), ..])]) to a scratch copy,
build and test it, and run every check on it: all have to stay quiet. JOINT=1 applies all of them together."""
import sys, os, shutil, subprocess, re, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
src = open(os.path.join(HERE, "engine", "check_rules.py")).read()
PROPS = sorted(re.findall(r'"(\w\d\d)": "\w+"', src))
ONLY = os.environ.get("ONLY", "").split() or PROPS
ns = {}; exec(open(sys.argv[1]).read(), ns); R = ns["REFACS"]
if len(sys.argv) > 2: R = [r for r in R if sys.argv[2] in r[0]]
if os.environ.get("JOINT"): R = [("joint", [e for r in R for e in r[1]])]
base = "/tmp/w/rf"
def one(p, d, ev):
    e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_TIER="quick", VERIF_SEED="1")
    t = time.time()
    r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=1000)
    return p, r.returncode, r.stdout, time.time() - t
for name, edits in R:
    d = os.path.join(base, name); ev = os.path.join(base, name + ".ev")
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(ev, ignore_errors=True); os.makedirs(base, exist_ok=True); os.makedirs(ev)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "_build"))
    bad = False
    for f, a, b in edits:
        t = open(os.path.join(d, f)).read()
        if t.count(a) < 1: print("%-24s BAD EDIT %s: %r" % (name, f, a[:70])); bad = True; continue
        open(os.path.join(d, f), "w").write(t.replace(a, b, 1))
    if bad: continue
    w = subprocess.run("for f in circular_buffer pub sub rmc_protocol rmc_connection rmc_log rmc_pub_context rmc_pub_packet rmc_pub_read rmc_pub_timeout rmc_pub_write rmc_sub_context rmc_sub_packet rmc_sub_read rmc_sub_timeout rmc_sub_write time; do [ -f $f.c ] && gcc -fsyntax-only -w -D_GNU_SOURCE -fpic $f.c; done", shell=True, cwd=d, stderr=subprocess.PIPE, text=True)
    if w.stderr.strip(): print("%-24s DOES NOT COMPILE\n%s" % (name, w.stderr[:1500])); continue
    t0 = time.time(); lines = []
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda p: one(p, d, ev), ONLY))
    for p, rc, out, dt in res:
        und = re.search(r"(\d+) undecided", out); gap = [l for l in out.splitlines() if l.startswith(("INCOMPLETE", "ERROR"))]
        if rc: lines.append("   ALARM %s rc=%d %s" % (p, rc, " ; ".join(l.strip() for l in out.splitlines() if " rule " in l or "ERROR" in l)[:600]))
        elif gap or und and int(und.group(1)): lines.append("   note %s undecided=%s %s" % (p, und and und.group(1), " ".join(gap)[:200]))
        if dt > 300: lines.append("   slow %s %.0fs" % (p, dt))
    print("%-24s %s (%.0fs)" % (name, "QUIET" if not any("ALARM" in l for l in lines) else "ALARMS", time.time() - t0)); print("\n".join(lines)) if lines else None
    sys.stdout.flush()
    if not os.environ.get("KEEP"): shutil.rmtree(d, ignore_errors=True); shutil.rmtree(ev, ignore_errors=True)

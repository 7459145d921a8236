#!/usr/bin/env python3
"""tools/mut.py FILE.py [substring]: MUTS = [(name, "P1,P2", file, old, new, "bug"|"ok")]; each is applied to a scratch
copy of /repo's sources and the named checks are run on that copy (development aid, registered nowhere)."""
import sys, os, shutil, subprocess, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTS = runpy.run_path(sys.argv[1])["MUTS"]
pat = sys.argv[2] if len(sys.argv) > 2 else ""
def one(m):
    name, props, f, old, new, exp = m[:6]
    edits = [(f, old, new)] + list(m[6] if len(m) > 6 else [])
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        for x in os.listdir("/repo"):
            if x.endswith((".c", ".h")) or x == "Makefile": shutil.copy("/repo/" + x, d)
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if f == "rmc_list_template.h":   # one macro: line ends are padded and continued
                import re
                m_ = re.search(r"[ \t]*\\?\n".join(map(re.escape, old.split("\n"))), s)
                if m_: old = m_.group(0); new = " \\\n".join(new.split("\n"))
            if s.count(old) < 1: return (name, "BAD EDIT (%d)" % s.count(old), "")
            open(d + "/" + f, "w").write(s.replace(old, new, 1))
        p = subprocess.run("for f in $(make -s print_obj); do c=$(basename $f .o).c; gcc -D_GNU_SOURCE -fsyntax-only -w $c || exit 1; done", shell=True, cwd=d, capture_output=True, text=True)
        if p.returncode: return (name, "DOES NOT COMPILE", p.stderr[:400])
        res = []
        for pr in props.split(","):
            q = subprocess.run(["timeout", "900", "python3", V + "/check.py", pr], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True)
            lines = [l for l in q.stdout.splitlines() if not l.startswith("VIOLATION")]
            res.append((pr, q.returncode, "; ".join(lines[-3:])[-330:] if q.returncode == 0 else "; ".join(l.strip() for l in lines[1:4])[:330] + (q.stderr[-300:] if q.returncode > 1 else "")))
        bad = [r for r in res if r[1] not in (0, 1)]
        fired = [r for r in res if r[1] == 1]
        ok = not bad and (bool(fired) == (exp == "bug"))
        return (name, "ok" if ok else ("MISSED" if exp == "bug" and not bad else ("ERROR" if bad else "FALSE ALARM")), "\n      ".join("%s rc=%d %s" % r for r in res))
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(6) as ex:
    for n, v, d in ex.map(one, [m for m in MUTS if pat in m[0]]): print("%-28s %-12s %s" % (n, v, d), flush=True)

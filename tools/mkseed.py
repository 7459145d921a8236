#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C source or None), srcs, demo_sh(optional)"""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ONLY = sys.argv[2:]
for s in spec["SEEDS"]:
    if ONLY and not any(o in s["id"] for o in ONLY): continue
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed."); w = t + "/r"
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w], check=True)
    try:
        for f, old, new in s["edits"]:
            p = w + "/" + f; x = open(p).read()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old)
            new_lines = set(new.splitlines()); i = x[:x.index(old)].count("\n") + 1
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,+%d" % (i, old.count("\n") + (not old.endswith("\n"))), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout
            own = [l for l in bl.splitlines() if not l.lstrip("^").startswith("ffba7f1") and l.split(") ", 1)[-1] not in new_lines]
            if own: print("   lines of ours changed in", s["id"], own[:3])
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w]); shutil.rmtree(t, ignore_errors=True)
    open(d + "/meta.json", "w").write(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1))
    if s.get("demo"):
        open(d + "/demo.c", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(s.get("sh") or """#!/bin/bash
# cwd is /repo after a build; everything is kept in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -I. %s "$here/demo.c" %s -o "$t/demo" || exit 2
timeout %s "$t/demo"
""" % (s.get("flags", ""), s.get("srcs", "_build/librmc.a"), s.get("timeout", 60)))
    os.chmod(d + "/demo.sh", 0o755)
    print(s["id"])

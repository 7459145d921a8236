#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the rule table of engine/check_rules.py"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = open(V + "/engine/check_rules.py").read()
rules = eval(re.search(r"RULES = (\{.*?\})", src, re.S).group(1))
NA = {
 "N01": "liveness over unbounded histories of network loss and application polling: no sound static argument over this C code bounds it; its building blocks (resend on timeout, acknowledgement scheduling, nothing leaves a queue unless sent) are decided separately in P03, P04, S04 and W03",
 "N02": "a history property of several processes over a lossy network; static analysis of one process's source cannot quantify over the interleavings, and the per-process obligations that imply it are decided separately in P01, P04, S01 and S02",
 "N03": "real-time bounds depend on the application's polling and on scheduling, which the source does not determine; the deadlines the library computes are decided in T01, and that due work is done when processed in P03 and S04",
}
LEVEL = {}
TECH = json.load(open(V + "/tools/technique.json"))
checks = []; na = []
for p in props:
    i = p["id"]
    if i in rules:
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=t.get("technique", "path-partitioned abstract interpretation of the LLVM IR (linear integer domain) with typestate/event-order rules"),
                           level="other",
                           level_note=t.get("note", "Every path of the anchored functions is analysed from source; a violation is reported only with a concrete integer example for a feasible abstract path. "
                           "Trusted: clang -O0 front end, the IR reader, the transfer functions for libc and the kernel, the aliasing assumptions listed in DESIGN.md. Obligations the domain cannot settle are counted as undecided in the evidence.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Static analysis only; see DESIGN.md. No hooks: the checks read the unmodified sources.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

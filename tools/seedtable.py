"""Section 13 of DESIGN.md from seeded/*/meta.json (and caught.json notes of tools/tryseed.sh runs, if any)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
also = {}
try: also = json.load(open(V + "/tools/caught.json"))
except OSError: pass
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    others = [p for p in also.get(d, []) if p != m["property"]]
    rows.append(f"| {d} | {m['property']} | {', '.join(others) or '-'} | {m['what_it_breaks'].strip().rstrip('.')} |")
t = ("## 13. Planted bugs and the checks that catch them\n"
     "Generated by `tools/seedtable.py`. \"also\" lists further checks that were seen to report the change (checks over 60 s were not all tried).\n\n"
     "| change | caught by | also | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"\n*## 13\..*", "", s, flags=re.S).rstrip() + "\n\n" + t
open(p, "w").write(s)

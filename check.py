#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property on the current tree of /repo by static analysis."""
import sys, os, time, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True
import ir
from check_rules import RULES
# wall-clock limit of the analysis: what is left over is reported as not followed, never as held or violated
LIMIT = dict(quick=780, thorough=6 * 3600)
def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        import base, interp
        chk = base.Check(prop, ir.load())
        interp.DEADLINE = t0 + LIMIT.get(chk.tier, 780)
        mod = importlib.import_module("rules." + RULES[prop])
    except ir.AnalysisError as e:
        print("ERROR: %s" % e); sys.exit(2)
    # a construct the analysis does not understand leaves the rest of the property undecided: it is
    # reported as such (and in the evidence), and what was found before stands
    gap = None
    try: getattr(mod, prop)(chk)
    except ir.AnalysisError as e: gap = str(e)
    except interp.Deadline: gap = "time limit reached"
    except Exception as e:
        import traceback; traceback.print_exc()
        gap = "internal error of the analysis: %r" % e
    if gap: chk.gaps.append("the rest of %s was not decided: %s" % (prop, gap)); chk.incomplete.append(gap)
    try: rc = base.finish(chk, t0)
    except ir.AnalysisError as e:
        print("ERROR: %s" % e); rc = 2
    sys.exit(rc)
main()

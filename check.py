#!/usr/bin/env python3
"""check.py PROPERTY   (VERIF_TIER = quick | thorough, VERIF_SEED = n)

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it did not.
Exit 2: the check itself failed.
"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import kit, plans


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = kit.Check(prop, tier, seed)
    try:
        c.build()
        return plans.PLANS[prop](c)
    except kit.ToolError as e:
        print("TOOL ERROR (%s): %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

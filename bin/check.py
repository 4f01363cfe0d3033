#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decide one property; see DESIGN.md"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vt


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vt.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        mod.check(ctx)
        rc = ctx.finish()
    except vt.Broken as x:
        print("ERROR: the check itself failed: " + str(x), file=sys.stderr)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc)


main()

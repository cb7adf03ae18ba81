#!/usr/bin/env python3
"""run.py <property> [quick|thorough] - decides one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vlib


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        import checks
        checks.REGISTRY[prop](ctx)
        return ctx.finish()
    except vlib.ToolError as e:
        print("TOOL ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Ctx, Broken, with_cfg
import gen
from plans import PLANS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        PLANS[prop](ctx)
        sys.exit(ctx.finish("model_checking"))
    except Broken as e:
        print("BROKEN CHECK %s: %s" % (prop, e))
        sys.exit(2)


if __name__ == "__main__":
    main()

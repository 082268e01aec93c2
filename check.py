#!/usr/bin/env python3
"""check.py C01 ... : decides one property of xconnio/wampproto-go (see DESIGN.md)."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, plans


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    try:
        plans.PLANS[prop](ctx)
        rc = ctx.finish()
    except core.ToolError as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()

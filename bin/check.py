#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]   (VERIF_TIER and VERIF_SEED are honoured)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + prop)
    try:
        vlib.build_harness()
        ctx = vlib.Ctx(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
        mod.run(ctx)
        rc = ctx.finish()
    except vlib.ToolError as e:
        print("ERROR: " + str(e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

main()

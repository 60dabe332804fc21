#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    fam = {"C": "fam_conc", "A": "fam_arena", "M": "fam_metrics", "V": "fam_vector", "S": "fam_string", "P": "fam_optparse", "U": "fam_units"}[prop[0]]
    mod = __import__(fam)
    ctx = vlib.Ctx(prop)
    try:
        rc = mod.run(ctx)
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.dir)
        else:
            ctx.close()
    return rc

sys.exit(main())

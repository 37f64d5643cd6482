#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--keep] [--only CASE]"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib

def main(argv):
    pid, tier, keep = argv[0], os.environ.get("VERIF_TIER", "quick"), False
    only = None
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--keep": keep = True
        elif x == "--only": only = a.pop(0)
        else: sys.exit("unknown argument " + x)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + pid)
    ctx = vplib.Ctx(pid, tier, seed, keep)
    ctx.only = only
    try:
        mod.run(ctx)
        return ctx.finish(mod.LEVEL)
    except vplib.Broken as e:
        if ctx.violations:
            ctx.log("part of the check could not finish: %s" % str(e)[:1500])
            return ctx.finish(mod.LEVEL)
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()

if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)

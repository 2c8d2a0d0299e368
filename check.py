#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.  VERIF_TIER, VERIF_SEED."""
import importlib, os, sys, traceback
if os.environ.get("PYTHONHASHSEED") != "0":      # the same seed explores the same
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common

MODULES = ["p_store", "p_conc", "p_files", "p_progs", "p_robust", "p_front", "p_settings"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn = None
    for m in MODULES:
        fn = importlib.import_module(m).CHECKS.get(prop) or fn
    if fn is None:
        print("unknown property", prop)
        return 3
    ctx = common.Ctx(prop, tier, seed)
    try:
        return fn(ctx)
    except common.CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]     decide one property
   check.py replay <file>                          re-run a recorded violation
   check.py setup                                  build everything once"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run, core


def module(pid):
    import registry
    return registry.CHECKS[pid]


def main(a):
    if a[0] == "setup":
        import registry
        registry.setup()
        return 0
    if a[0] == "replay":
        import registry
        return registry.replay(json.load(open(a[1])))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn = module(a[0])
    c = core.Check(a[0], tier, seed)
    try:
        fn(c)
        return c.finish()
    except Exception:
        c.work.close()
        raise


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except run.Tool as e:
        print("TOOL ERROR: %s" % e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

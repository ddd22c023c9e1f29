#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property on /repo's current working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib  # noqa: E402
import checks  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return checks.replay(prop, sys.argv[3])
    run = vlib.Run(prop, tier, seed)
    try:
        assumptions = checks.CHECKS[prop](run) or ()
        return run.finish(assumptions)
    except vlib.CheckError as e:
        print("ERROR: " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())

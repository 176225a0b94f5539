#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decides one property; see DESIGN.md."""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = vlib.Check(pid, tier, seed)
    try:
        checks.CHECKS[pid](c)
    except vlib.CheckError as e:
        vlib.log("[error] " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | check.py --replay FILE | check.py --list"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import driver, checks
if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(driver.replay(sys.argv[2]))
    if sys.argv[1] == "--list":
        print("\n".join(sorted(checks.CHECKS)))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(driver.run_check(sys.argv[1], checks.CHECKS[sys.argv[1]], tier, int(os.environ.get("VERIF_SEED", "1"))))

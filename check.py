#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.harness import Check, Vanished          # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + pid.lower())
    ck = Check(pid, tier)
    try:
        return ck.parallel(mod.run) if getattr(mod, "PARALLEL", False) else mod.run(ck)
    except Vanished as e:
        print("ANALYSIS-BROKEN property=%s: public anchor %s not found" % (pid, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-BROKEN property=%s: source does not parse: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())

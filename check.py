#!/usr/bin/env python3
"""Decide one property of the working tree in /repo by static analysis.

usage: check.py PROPERTY [--tier quick|thorough]
"""

import argparse
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa import report  # noqa: E402
from sa.core import AnalysisError, Repo  # noqa: E402
from sa.registry import RULES  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ns = ap.parse_args()
    t0 = time.time()
    mod, level, technique = RULES[ns.property]
    try:
        repo = Repo()
        rule = importlib.import_module(f"sa.rules.{mod}")
        for name, ok in getattr(rule, "selftest", lambda: [])():
            if not ok:
                print(f"ANALYSIS-BROKEN property={ns.property}: positive example {name} not recognised")
                return 2
        res = rule.run(repo, ns.tier)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={ns.property}: {e}")
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={ns.property}: internal error")
        return 2
    return report.finish(ns.property, ns.tier, level, technique, res, t0)


if __name__ == "__main__":
    sys.exit(main())

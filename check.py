#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]"""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)

CHECKS = {
    "C01": "drivers",
    "C02": "drivers",
    "C04": "jsonde",
    "C05": "jsonde",
    "C06": "jsonde",
    "C09": "values",
    "C10": "values",
    "C11": "wrap",
    "C12": "colls",
    "C13": "values",
    "C14": "values",
    "C16": "multi",
    "C18": "derives",
    "C19": "macros",
    "C20": "macros",
    "C21": "derives",
    "C22": "derives",
    "C23": "derives",
    "C25": "ext",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import build
    from props import common

    import engine

    engine.DEADLINE = time.monotonic() + (600 if tier == "quick" else 6000)
    mod = importlib.import_module("props." + CHECKS[pid])
    rep = common.Report(pid)
    try:
        res = getattr(mod, "check_" + pid)(rep, tier)
    except build.BuildError as e:
        print("NO ANSWER: the entry points of the analysis do not build against /repo\n" + str(e)[-4000:])
        return 2
    return common.finish(rep, tier, seed, res.get("level", "other"), res["explanation"], res["coverage"], res.get("assumptions", ()))


if __name__ == "__main__":
    t0 = time.time()
    sys.exit(main())

#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    import common

    if a.setup:
        print("compiled", common.classes())
        return 0
    chk = common.Check(a.prop, a.tier, a.seed)
    try:
        importlib.import_module(a.prop.lower()).run(chk)
    except Exception as e:
        traceback.print_exc()
        if not chk.violations:
            print(f"ERROR property={a.prop} {type(e).__name__}: {e}")
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Decide one property on /repo's current tree: check.py <property>."""
import os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") \
        and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "harness"))
import common

ROUND = {"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C20"}


def main():
    prop = sys.argv[-1]
    check = common.Check(prop)
    try:
        if prop in ROUND:
            import roundprops
            roundprops.run(check, prop)
        else:
            import importlib
            importlib.import_module("prop_" + prop.lower()).run(check)
        return check.finish()
    except common.MachineryError as e:
        if check.violations:
            return check.finish()
        print("ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return check.finish() if check.violations else 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on the current /repo tree"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    from kv import run
    m = importlib.import_module("kv.checks." + prop.lower())
    E = run.Env(prop)
    try:
        E.build()
        m.check(E)
        rc = E.finish()
    except run.CheckError as x:
        print("CHECK-ERROR property=%s %s" % (prop, x))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        E.close()
    sys.exit(rc)


main()

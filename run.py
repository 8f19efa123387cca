#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import report

def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else "quick"
    try:
        mod = importlib.import_module(prop)
        fn, level = mod.check, getattr(mod, "LEVEL", "other")
    except Exception as e:  # a check that cannot be loaded must not pass
        msg = "cannot load check: %r" % (e,)
        def fn(ck):
            ck.violate("load", msg)
        level = "other"
    sys.exit(report.main(prop, fn, tier, level))

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Decide one property on the current tree of /repo: check.py C01 [tier]

check.py C01 --replay FILE executes the scenario of a replay file again."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    prop = sys.argv[1]
    ctx = lib.Ctx(prop)
    if len(sys.argv) == 3:
        ctx.tier = sys.argv[2]
    try:
        checks = {}
        for m in ("kv", "pools", "ring", "srv", "life", "conc"):
            if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
                checks.update(importlib.import_module(m).CHECKS)
        ctx.build()
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return ctx.replay(sys.argv[3])
        assumptions = checks[prop](ctx) or []
        return ctx.finish(assumptions=assumptions)
    except lib.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())

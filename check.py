#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree.
check.py --setup: build everything.   check.py --replay FILE: run one recorded violation again."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rzv import core, registry


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        core.build_harness()
        core.build_cli()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    only = None
    if a[0] == "--replay":
        only = json.load(open(a[1]))
        prop, tier, seed = only["property"], only["tier"], only["seed"]
    else:
        prop = a[0]
    if prop not in registry.CHECKS:
        print("unknown property", prop)
        return 2
    ctx = core.Ctx(prop, tier, seed)
    try:
        registry.CHECKS[prop](ctx)
        return ctx.finish(only)
    except core.ToolError as e:
        if any(f["kind"] == "dead" for f in ctx.fails):     # found before
            return ctx.finish(only)
        print("ERROR property=%s: %s" % (prop, e))
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())

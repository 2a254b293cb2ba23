#!/usr/bin/env python3
"""check.py <property>: decides one property with the specification; see DESIGN.md."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        vlib.build()
        if prop == "setup":
            return 0
        c = vlib.Check(prop, tier, seed)
        importlib.import_module("checks." + prop.lower()).run(c)
        return c.finish()
    except vlib.ToolError as e:
        print(f"check error: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

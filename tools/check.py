#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.  See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Check, ToolError


def main():
    pid = sys.argv[1]
    import checks
    if pid not in checks.CHECKS:
        print(f"unknown property {pid}")
        return 2
    try:
        c = Check(pid)
        known = checks.CHECKS[pid](c)
        return c.finish(known or ())
    except ToolError as e:
        print(f"TOOL-ERROR property={pid} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"TOOL-ERROR property={pid} internal error")
        return 2


sys.exit(main())

#!/usr/bin/env python3
"""Decides one property: checks/run.py C07 (tier from VERIF_TIER, seed from VERIF_SEED)."""
import os, sys, traceback
if os.environ.get("PYTHONHASHSEED") != "0":       # a seed names the same cases in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import Check, ToolError
from pipe import Unending

def main():
    prop = sys.argv[1]
    chk = Check(prop)
    n = int(prop[1:])
    try:
        if 10 <= n <= 16 or n == 27:
            import lexchecks as m
        elif n in (18, 20, 24):
            import langchecks as m
        elif n in (21, 25):
            import clichecks as m
        else:
            import gramchecks as m
        getattr(m, prop.lower())(chk)
    except Unending as e:
        if prop in ("C03", "C04", "C05", "C17", "C18", "C19", "C20", "C21", "C25"): chk.violation("the generator does not end", {"what": str(e)})
        else:
            print("TOOL ERROR:", e)
            return 2
    except ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return chk.finish()

sys.exit(main())

#!/usr/bin/env python3
"""run.py <property id> [--thorough] [--root DIR]: decide one property on the current source tree."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vfa.program import Program, AnalysisBroken   # noqa
from vfa.report import Report   # noqa
from vfa.q import Ctx   # noqa


def main(argv):
    pid = argv[0].upper()
    root = "/repo"
    if "--root" in argv:
        root = argv[argv.index("--root") + 1]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    r = Report(pid, tier)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    r.rule = " ".join(mod.RULE.split())
    try:
        prog = Program(root)
        c = Ctx(prog, r, tier)
        mod.check(c)
    except AnalysisBroken as e:
        r.und("analysis anchor not found", "", str(e))
    except RecursionError as e:
        r.und("analysis gave up", "", "recursion limit")
    except Exception as e:
        traceback.print_exc()
        r.und("internal error of the analyser", "", f"{type(e).__name__}: {e}")
    if not any(o[0] is not None for o in r.obligations):
        # nothing at all could be decided: no verdict
        print(f"{pid}: no obligation was decided")
        r.finish()
        return 2
    return r.finish()


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)

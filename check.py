"""Run one static check:  python check.py <ID> [--thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from oasa.ctx import Ctx
from oasa.project import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    ctx = Ctx(pid, tier)
    try:
        importlib.import_module("checks." + pid.lower()).run(ctx)
    except AnalysisBroken as e:
        print(f"{pid}: the analysis lost an anchor: {e}")
        return 2
    except SyntaxError as e:
        print(f"{pid}: the package does not parse: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())

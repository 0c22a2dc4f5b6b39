#!/usr/bin/env python3
"""python3 /verif/check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa.report import Report, finish
    from sa.core import Program, AnalysisBroken
    try:
        mod = importlib.import_module("sa.checks." + prop.lower())
        rep = Report(prop)
        prog = Program()
        rep.stats["modules"] = len(prog.modules)
        rep.stats["functions"] = len(prog.funcs)
        mod.run(prog, rep, tier)
        if not rep.obligations:
            raise AnalysisBroken("no obligation was generated: the rule matched nothing")
        return finish(rep, tier, seed, mod.NOTE)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())

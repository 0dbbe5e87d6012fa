#!/usr/bin/env python3
"""check.py <property>... | all : decides properties of /repo's current tree."""
import os, sys, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import chk
import frontend
from frontend import AnalysisError
from state import AnalysisLimit

MODULES = [m[:-3] for m in sorted(os.listdir(os.path.join(HERE, "checks"))) if m.endswith(".py") and m[0] != "_"]
EXPL = ("Static analysis of the type-checked program (clang AST of every translation unit with the real compiler "
        "flags, re-exported on this run): an abstract interpreter follows every path of the entry functions named "
        "under `functions`, callees inlined, loops summarised at a fixpoint, over a domain of provenance terms, "
        "intervals, orderings with NaN and floating point classes; every rule in `obligations_by_rule` is then "
        "decided on each path, access or loop summary. Nothing of the repository is executed.")


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        argv.remove("--thorough")
        tier = "thorough"
    table = {}
    for m in MODULES:
        table.update(importlib.import_module(m).CHECKS)
    ids = sorted(table) if argv == ["all"] else argv
    worst = 0
    for pid in ids:
        t0 = time.time()
        if pid not in table:
            print("unknown property " + pid)
            return 2
        c = chk.Check(pid, tier)
        try:
            table[pid](c)
            if tier == "thorough":
                # the same rules on the program as other language versions see it
                for std in ("c++17", "c++20"):
                    frontend.STD, c.config = std, "default"
                    try:
                        table[pid](c)
                    finally:
                        frontend.STD, c.config = None, "default"
            if not c.n:
                raise AnalysisError("no obligation was generated")
            rc = chk.finish(c, t0, "", "other", EXPL)
        except (AnalysisError, AnalysisLimit, RecursionError) as x:
            if c.viol:
                rc = chk.finish(c, t0, "", "other", EXPL)
            else:
                print("%s: no answer: %s" % (pid, x))
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                rc = 2
        except Exception as x:
            traceback.print_exc()
            if c.viol:
                rc = chk.finish(c, t0, "", "other", EXPL)
            else:
                rc = 2
        worst = rc if worst == 0 or rc == 1 else worst
    return worst


sys.exit(main(sys.argv[1:]))

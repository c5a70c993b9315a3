#!/usr/bin/env python3
"""Check of one property: run.py <id> [quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import engine  # noqa: E402

if os.path.realpath(sys.executable) != os.path.realpath(engine.PY) or os.environ.get("PYTHONHASHSEED") != "0":
    if os.environ.get("OCL_REEXEC") != "1":
        env = dict(os.environ, PYTHONHASHSEED="0", OCL_REEXEC="1", PYTHONDONTWRITEBYTECODE="1")
        os.execve(engine.PY, [engine.PY, os.path.abspath(__file__)] + sys.argv[1:], env)

engine.use_repo()
import checks  # noqa: E402
from report import Report  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[-1] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(prop, tier, seed)
    checks.run(prop, tier, seed, rep)
    sys.exit(rep.finish())

#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   or   check.py --replay <file>"""
import os
import sys

# the iteration order of sets is part of the explored behaviour: fix it here
# (C17 explores all orders)
PYTHON = "/opt/venv/bin/python"  # the one that has the dependencies of APG
if "PYTHONHASHSEED" not in os.environ or sys.prefix != "/opt/venv":
    os.environ.setdefault("PYTHONHASHSEED", str(
        int(os.environ.get("VERIF_SEED", "0") or 0) % 2**31))
    os.execv(PYTHON, [PYTHON, "-B", "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import warnings  # noqa: E402

warnings.simplefilter("ignore")

from apgmc import engine  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(engine.replay(sys.argv[2]))
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get("VERIF_TIER", "quick"))
    sys.exit(engine.check(sys.argv[1], tier))

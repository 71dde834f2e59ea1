"""python3-vt -B check.py <ID> [--tier quick|thorough] [--replay FILE]"""

import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import common  # noqa: E402  (puts /repo first on sys.path)
from lib import runner  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(runner.main(mod))

"""What every check uses: access to the code under test and oracles' helpers."""

import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
# nothing stale: never read a .pyc of the code under test
sys.pycache_prefix = os.path.join("/nonexistent", "vp-pycache")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
    sys.path.insert(1, os.path.join(REPO, "scripts"))

warnings.simplefilter("ignore")
logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)


class Violation(AssertionError):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want or type(got) is not type(want) and not (
        isinstance(got, (int, bool)) and isinstance(want, (int, bool))
    ):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Odd:
    """A value that can neither be compared nor tested nor copied, like an array."""

    def __eq__(self, other):
        return Odd()

    __ne__ = __lt__ = __gt__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise ValueError("the truth value of an Odd is ambiguous")

    def __len__(self):
        return 0

    def __copy__(self):
        raise TypeError("an Odd cannot be copied")

    __deepcopy__ = lambda self, memo: self.__copy__()

    def __repr__(self):
        return "'<odd>'"


class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def of(self, level):
        return [m for lv, m in self.records if lv == level]

    def clear(self):
        self.records.clear()


def quiet(level="CRITICAL"):
    """Toffee logging to nowhere, captured from `level` up."""
    import toffee

    toffee.setup_logging(log_level=getattr(logging, level), console_display=False)
    cap = LogCapture()
    toffee.get_logger().addHandler(cap)
    toffee.get_logger().propagate = False
    return cap
